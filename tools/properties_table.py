# executed by gen_meta.py
BOUND = ("Exhaustive within the constants of the model (see the MC_ module) and bound to the code by replaying every "
         "emitted behaviour (or a seeded sample where stated in the evidence); trusts TLC, CasADi and the adapter. ")

prop("C01", "Model variables and equations stay aligned through every edit history",
     "After any sequence of creating, including and removing states, algebraics, controls, parameters and thetas "
     "and of including differential or algebraic equations in any accepted spelling, the model lists exactly the "
     "surviving variables in insertion order, each state carries its own initial-condition symbol and its own "
     "equation, and the algebraic equations are exactly those included and not removed. A request that is refused "
     "(duplicate state, unknown variable, wrong number of equations) raises and leaves the model as it was.",
     ["histories", "inputs"], "every history of model-building calls, with scalar and vector variables",
     "Tests build a handful of fixed models; alignment must survive arbitrary interleavings of include, remove and "
     "equation calls, including refused ones.",
     [M + "system_model.py", M + "mixins/continuous_states_mixin.py", M + "mixins/algebraic_mixin.py",
      M + "mixins/control_mixin.py", M + "mixins/parameter_mixin.py"],
     [("include_/create_/remove_ methods", M + "mixins/"), ("SystemModel.include_equations", M + "system_model.py")],
     "Modelling.tla", BOUND + "Two preludes, all histories of two (quick) / three (thorough) further operations.",
     state=[("x, x_0, ode", "states, their initial symbols, their equations", M + "mixins/continuous_states_mixin.py"),
            ("y, alg", "algebraics and equations", M + "mixins/algebraic_mixin.py")])

prop("C02", "Replacing, parametrizing and connecting variables preserves model meaning",
     "Replacing a variable, parametrizing a control or connecting an input to an output rewrites every equation of "
     "the model (differential, algebraic and control expression) with exactly the requested simultaneous "
     "substitution and changes nothing else. A parametrized control remains listed as a control, its parameters "
     "become the free control parameters, it can neither be parametrized again nor removed, and connecting "
     "u to y removes u from the inputs either by substitution or by the added equation u - y = 0; refused requests "
     "leave the model as it was.",
     ["histories", "inputs"], "every sequence of replace, parametrize, connect and removal on any model",
     "Tests check one substitution on one model; simultaneous and repeated substitution interacts with earlier "
     "parametrizations.",
     [M + "system_model.py", M + "mixins/control_mixin.py"],
     [("SystemModel.replace_variable / connect", M + "system_model.py"),
      ("ControlMixin.parametrize_control / replace_variable", M + "mixins/control_mixin.py")],
     "Modelling.tla", BOUND + "Expressions are linear forms over the model's symbols with distinct coefficients.")

prop("C03", "Composing models yields exactly the union of their variables and equations",
     "Including or merging models into one gives a model whose states, algebraics, controls, parameters, thetas, "
     "equations and control parametrizations are exactly those of the parts, in order, with every part's time "
     "symbols replaced by the composite's, plus the connecting equations given. The included models themselves are "
     "not changed, and later connections on the composite keep it as square as its parts.",
     ["histories", "configurations"], "all combinations and orders of composing and connecting models",
     "Tests compose one or two concrete models once.",
     [M + "system_model.py", M + "mixins/control_mixin.py"],
     [("SystemModel.include_models / merge / connect", M + "system_model.py")],
     "Modelling.tla", BOUND + "Up to three models, parametrized or not.")

prop("C04", "Model copies are complete and isolated from the original",
     "A copy of a model has the same variables, equations and control parametrization as the original, and a deep "
     "copy has the same structure and names over entirely fresh symbols (including time). No later edit of the copy "
     "is visible in the original, nor the other way round.",
     ["histories"], "every history of copies interleaved with edits on either side",
     "Tests copy once and compare; isolation is about every later edit on either side.",
     [M + "system_model.py"], [("SystemModel.get_copy / get_deepcopy", M + "system_model.py")],
     "Modelling.tla", BOUND + "Up to three models alive at once.")

prop("C05", "Simulation follows the model equations over the requested grid",
     "Simulating a model from an initial state over any grid of times, with constant or per-element controls, "
     "parameters and thetas, gives at every grid time the state, algebraics and controls that solve the model's "
     "equations there, with results labelled by the right times and names, and stopping and resuming at a grid point "
     "gives the same trajectory. The DAE system extracted from a model, its substitutions, joins and conversions to an "
     "ODE or CasADi dictionary, the linearization and the equilibrium search agree with the model's equations. "
     "Ill-formed requests (empty elements, controls that do not match the grid) are refused and arguments are never "
     "modified.",
     ["inputs", "configurations"], "all model kinds, grids, start times, control spellings and integrators offered",
     "Tests simulate one model on one grid and check shapes only.",
     [M + "system_model.py", M + "dae_system.py", M + "simulation_result.py"],
     [("SystemModel.simulate / linearize / find_equilibrium", M + "system_model.py"), ("DAESystem", M + "dae_system.py"),
      ("SimulationResult", M + "simulation_result.py")],
     "Simulation.tla, DaeSystem.tla, Steady.tla", BOUND + "Dynamics with polynomial solutions, so the oracle is exact.")

prop("C06", "Declared variables, bounds and constraints are exactly what gets solved",
     "Whatever sequence of variables, parameters, inequalities, equalities, relational constraints and objective is "
     "declared, each variable and each constraint row keeps exactly the bounds declared for it (scalar bounds "
     "broadcast, absent bounds infinite), and every solve uses the problem as declared at that moment, including "
     "after earlier solves; options set on one problem do not reach another. Contradictory bounds, size mismatches, bounds that depend on the problem's own symbols, "
     "non-scalar objectives and wrong parameter sizes are refused without changing the problem.",
     ["histories", "inputs"], "every history of declarations and solves; every bound form",
     "Tests declare a few shapes once and never re-declare after a solve.",
     ["yaocptool/optimization/abstract_optimization_problem.py", "yaocptool/optimization/nonlinear_problem.py",
      "yaocptool/optimization/quadratic_problem.py", "yaocptool/util/util.py"],
     [("include_variable / include_inequality / include_equality / include_constraint / solve",
       "yaocptool/optimization/abstract_optimization_problem.py")],
     "OptProblem.tla", BOUND + "Also solves box-constrained problems with IPOPT/qpOASES and compares the minimiser.")

prop("C07", "Problem bounds, guesses and constraints stay tied to their variables",
     "After any history of creating, including and removing states, algebraics, controls and (optimization or "
     "uncertain) parameters on an optimal control problem, every bound, move limit, guess, last control, initial value, "
     "mean, variance and evaluation time (start, end, default) is aligned with the variable or constraint it was given "
     "for, absent bounds are infinite, and initial, final, time-dependent, time-independent and chance constraints are "
     "exactly those included. The user's model is never modified by the problem, and a refused request (wrong size, "
     "unknown or duplicate variable, missing initial condition) leaves the problem as it was.",
     ["histories", "inputs"], "every history of problem edits, with scalar, list and DM data",
     "Tests make single edits on one problem.",
     [M + "ocp.py", M + "stochastic_ocp.py"],
     [("OptimalControlProblem.include_*/create_*/remove_*/set_*", M + "ocp.py"), ("StochasticOCP", M + "stochastic_ocp.py")],
     "Ocp.tla", BOUND + "Every single edit exhaustively from four starting problems, pairs in the thorough tier, plus "
     "random deep histories.")

prop("C08", "Transforming and merging problems preserves their objective and constraints",
     "Replacing a variable, parametrizing a control, connecting an input to an output, adding the cost state and "
     "merging problems rewrite the objective terms and every constraint consistently with the model: no removed "
     "symbol and no foreign time symbol is left anywhere, connected inputs pass their bounds and guess to the new "
     "algebraic variable, and a merged problem has the sum of the objectives and exactly the union of the variables, "
     "bounds, guesses and constraints while the merged parts stay untouched. Simulating a problem covers its whole "
     "horizon and honours every override, and a quadratic objective equals the written formula without changing the "
     "caller's data. A refused transformation leaves the problem as it was.",
     ["histories", "configurations"], "every history of transformations and merges over up to three problems",
     "Tests merge two small problems once and compare sizes.",
     [M + "ocp.py"], [("replace_variable / parametrize_control / connect / merge / create_cost_state / simulate", M + "ocp.py")],
     "Ocp.tla, OcpRun.tla", BOUND + "Linear costs and constraints with distinct coefficients; up to three problems.")

prop("C09", "A discretised problem accepts exactly the trajectories of the system",
     "For either discretization scheme, any number of elements, degrees of states and controls, start time and choice "
     "of optimised parameters and thetas, the nonlinear program built by a direct method accepts a decision vector if "
     "and only if the trajectory it stands for starts at the initial condition, satisfies the differential and "
     "algebraic equations of the model over the horizon [t_0, t_f] with the element's own controls and thetas, is "
     "continuous across elements, and keeps states, algebraics, controls, optimised parameters and thetas within their "
     "own bounds. Every decision variable belongs to exactly one variable of the result, and the objective is the "
     "problem's cost along the trajectory.",
     ["inputs", "configurations"], "every trajectory, feasible or not, for every combination of scheme, degree, grid and problem data",
     "Tests solve a few problems and compare one number at the optimum; the correspondence has to hold at every "
     "decision vector, in particular away from the optimum and for t_0 other than zero.",
     [S + "base/solutionmethodsbase.py", S + "base/discretizationschemebase.py", S + "classic/collocationscheme.py",
      S + "classic/multipleshooting.py", S + "classic/directmethod.py"],
     [("CollocationScheme.discretize", S + "classic/collocationscheme.py"), ("MultipleShootingScheme.discretize", S + "classic/multipleshooting.py"),
      ("SolutionMethodsBase.create_optimization_problem", S + "base/solutionmethodsbase.py")],
     "Transcription.tla", BOUND + "Trajectories are integer polynomials within the degree of the scheme, so that the "
     "transcription is exact; at most one fault (jump, wrong derivative, wrong algebraic value) per trajectory.")

prop("C10", "Constraints and cost are enforced at the right times of the horizon",
     "In the nonlinear program built by a direct method every path equality and inequality binds at exactly the times it "
     "was included for (start or end of every element, or every collocation point, which is the element end for multiple "
     "shooting), the move limits bind between consecutive elements and, when a last control is known, on the first one, "
     "initial-time equalities bind at t_0 only, final-time ones at t_f only and time-independent ones once, each with the values of time, parameters "
     "and thetas that hold there. The objective equals the final cost plus the integral cost plus the sum of the "
     "element-end costs.",
     ["inputs", "configurations"], "every trajectory and every placement of constraints over up to three elements",
     "Tests contain one or two constrained problems whose optimum does not reveal where a constraint is sampled.",
     [S + "classic/collocationscheme.py", S + "classic/multipleshooting.py", M + "ocp.py"],
     [("discretize, _create_time_dict_for_*", S + "classic/"), ("include_time_inequality / include_time_equality", M + "ocp.py")],
     "Transcription.tla", BOUND + "Linear constraints in all symbols of the problem, limits chosen so that both verdicts occur.")

prop("C11", "Each solve uses its own arguments and reports the solution faithfully",
     "A call of solve uses the parameters, thetas, initial condition, last control and initial guess it is given and "
     "those of the problem for what it leaves out (and is refused before the solver runs when nobody supplies a value), "
     "independently of earlier calls, and never modifies the caller's objects. The result shows the solver's decision vector as trajectories with the right variable, element, point "
     "and time (also in its dataset and by name), the parameters and thetas that hold at the solution including the "
     "optimised ones, and on problems whose optimum is known the returned solution is that optimum. Without a given "
     "guess the solver starts from the simulation of the problem's guess or from the problem's own values, as selected.",
     ["histories", "inputs"], "every history of solve calls with any subset of arguments given",
     "Tests call solve once with default arguments and compare objective values.",
     [S + "base/solutionmethodsbase.py", S + "base/optimizationresult.py", S + "classic/collocationscheme.py", S + "classic/multipleshooting.py"],
     [("SolutionMethodsBase.solve / _get_solver_call_args / create_optimization_result", S + "base/solutionmethodsbase.py"),
      ("OptimizationResult.to_dataset", S + "base/optimizationresult.py")],
     "Transcription.tla, Tracking.tla", BOUND + "A stand-in for the NLP solver returns the decision vector of each "
     "trajectory; real IPOPT solves on tracking problems whose optimum TLC finds by search.")

prop("C12", "The augmented Lagrangian method follows its protocol and converges to the OCP",
     "Each iteration of AugmentedLagrangian.solve solves the problem in which exactly the selected equations r (algebraic "
     "equations, time equalities, state bounds) are replaced by the running cost nu'r + r'diag(mu)r/2, everything else kept, "
     "and with the relaxed algebraic variables as controls that keep their bounds and guesses. Then every multiplier moves "
     "by mu_i r_i at each of its points with the mu of that solve (or stays whole, when only improvements count), mu follows "
     "its rule up to mu_max, and the loop ends at the first iteration whose errors are all under tol, or at max_iter. "
     "Multipliers and penalties live on to the next call, each iteration starts from the previous solution, and the result "
     "reports multipliers, violations and errors of its last solve. On problems with a known optimum the method ends there "
     "with the relaxed equations satisfied.",
     ["histories", "inputs", "configurations"], "every sequence of subproblem solutions, over several calls, for every selection of relaxed equations and option set",
     "The test-suite does not run the method at all; the update rule has to hold at every point of every element for "
     "every residual history.",
     [S + "augmented_lagrangian.py"],
     [("AugmentedLagrangian._relax_* / call_solver / update_parameters / _create_nu_update_func / _update_mu", S + "augmented_lagrangian.py")],
     "AugLag.tla, Tracking.tla", BOUND + "Up to three relaxed equations, up to three elements, degrees 1 to 3, histories of up "
     "to 20 iterations over several calls; a stand-in for the NLP solver plays the environment and each subproblem is judged "
     "at its answer; real IPOPT runs against the optimum found by TLC.")

prop("C13", "Distributed solution of networks follows its protocol, ends at the joint optimum",
     "DistributedAugmentedLagrangian puts every node in exactly one block and, by default, connected nodes in different blocks; each node's "
     "problem keeps its own cost plus nu'r + mu r'r/2 for exactly its connections r = u - y, where its own side is free, the other side is the "
     "neighbour's most recent trajectory (or its guess, or zero) and nu is the multiplier it keeps per point. Blocks are solved in order, distributed "
     "or not, every node warm-started from its last successful solution, a failed solve changing nothing, until the summed objective stops "
     "decreasing by inner_loop_tol or max_iter_inner; then every multiplier moves by mu r at every point at both ends, mu follows its rule, and the "
     "outer loop ends when all errors are under abs_tol or at max_iter_outer. Intermediary nodes answer with the value that minimises "
     "their two terms, for scalar and vector connections of any degree, and the result reports the last results, their summed "
     "objective, the iterations and the violations of each node. On networks with a known joint optimum all nodes end there, "
     "with or without intermediary nodes, in any order of blocks; BipartiteJacobiADMM does the same with both ends "
     "drawn to the mean of the last two sides and multipliers moving by mu (u - y)/2.",
     ["histories", "inputs", "configurations"], "every network, partition into blocks, option set and sequence of answers of the node solvers",
     "The test-suite does not run the method at all (its remote-object package is not installed here); the protocol has to hold for every "
     "topology and every history of answers.",
     ["yaocptool/methods/network/distributedaugmetedlagrangian.py", "yaocptool/methods/network/bipartite_jacobi_admm.py",
      "yaocptool/methods/network/intermediary_node_solution_method.py",
      "yaocptool/methods/base/distributed_optimization_result.py"],
     [("_include_exogenous_variables / _get_node_theta / _solve_node_problems_* / solve", "yaocptool/methods/network/distributedaugmetedlagrangian.py"),
      ("IntermediaryNodeSolutionMethod.solve / _compute_new_nu_and_error", "yaocptool/methods/network/intermediary_node_solution_method.py")],
     "Distributed.tla, Consensus.tla, MC_Groups.tla", BOUND + "Networks of two and three nodes (pairs, lines, fans, joins, rings, both directions, vector "
     "connections), intermediary nodes, degrees 1 to 3, up to three elements and outer iterations; blocks of all graphs of four nodes and random "
     "ones; a stand-in takes the place of the package erised, which is not installed; real IPOPT runs on networks with an optimum in closed form.")

prop("C14", "The MPC loop closes: measure, estimate, optimise, apply, advance",
     "Every sampling period PlantSimulation starts from its current state, applies the control it was last given (held "
     "between its sub-samples, a function of time sampled at their start), advances by t_s, records x, y and u at every "
     "sub-sample and one measurement c_matrix [x; y] (plus noise) per period, and get_measurement returns the latest of each. "
     "Every iteration of MPC.run gives that measurement to the estimator, gives the estimate (with cost entry and "
     "rearrangement), the parameters with the estimated mean and covariance in their places, theta, the control the plant has "
     "now and the previous solution one element later to the solution method, and applies the first control of its answer. "
     "run(n) and run_fixed_control* make n periods, run(0) does not end, refused controls change nothing and the caller's "
     "vectors stay as they are.",
     ["histories", "configurations"], "every history of controls, runs and optimiser answers, for every option set",
     "The test-suite has no MPC test; the loop is about what happens over several periods.",
     ["yaocptool/mpc/mpc.py", "yaocptool/mpc/plant.py", "yaocptool/estimation/ideal_estimator.py"],
     [("MPC.run / get_new_control / send_control / step / _get_parameter", "yaocptool/mpc/mpc.py"),
      ("PlantSimulation._advance / _measure / set_control / set_control_function", "yaocptool/mpc/plant.py")],
     "ClosedLoop.tla, LoopRun.tla", BOUND + "A two-state plant with one algebraic variable, horizons of one to three elements, up to "
     "four sub-samples, histories of up to twelve operations; a stand-in for the NLP solver plays the environment, and real IPOPT "
     "loops are compared with the optimal closed loop.")

prop("C15", "Data sets keep every point they are given, and show exactly those",
     "A DataSet holds for every entry its size, names, style and exactly the points inserted, in order of insertion until sorted; "
     "sort and extend order them by time and keep the order of points with the same time, extend adds the points and missing "
     "entries of the other data set, and a refused insert or extend changes nothing. Copies and saved files are equal to the "
     "original and independent of it. as_dataframe has one row per time and one column per named row with exactly the stored "
     "values, a plot shows exactly the selected rows, on the given figures, and SimulationResult's times, columns, span and final "
     "condition are those of its points.",
     ["histories", "inputs"], "every history of inserts, sorts, merges, copies, saves and plots over several data sets",
     "Tests insert and read back a few points of one data set.",
     [M + "dataset.py", M + "simulation_result.py"],
     [("DataSet.insert_data / extend / sort / get_copy / save / as_dataframe / plot", M + "dataset.py"),
      ("SimulationResult.extend / final_condition", M + "simulation_result.py")],
     "DataSet.tla", BOUND + "Two data sets, entries of up to three rows, histories of up to 24 operations.")

prop("C16", "A network of subsystems stands for exactly their composition",
     "After any history of including nodes, connecting, disconnecting and inserting intermediary nodes, a Network has exactly "
     "the included nodes, each with its own id and found by id and by name, and for every ordered pair of nodes the connected "
     "variables in pairs; a connection of foreign variables or of different sizes is refused and changes nothing. get_model and "
     "get_problem are the composition, in order of id, of all the subsystems (equations, bounds, guesses, costs, one time) plus "
     "u - y = 0 for every pair, leave the subsystems as they are and refuse an input fed twice or different horizons; intermediary "
     "nodes pass values on without changing what the network stands for. get_map_coloring_groups puts every node in exactly one group "
     "without neighbours, in at most one group more than the largest number of neighbours, and get_initial_condition gives every node "
     "the values its own variables have at the end of the simulation of the composition.",
     ["histories", "inputs"], "every history of edits of a network, and every graph",
     "Tests do not touch networks at all.",
     [M + "network/network.py", M + "network/node.py", M + "system_model.py", M + "ocp.py"],
     [("Network.include_nodes / connect / insert_intermediary_nodes / get_model / get_problem / get_map_coloring_groups / get_initial_condition", M + "network/network.py")],
     "Network.tla", BOUND + "Five subsystems, histories of up to nine operations; all graphs with four nodes and random ones with up to fifteen, "
     "recorded groupings judged by TLC.")

prop("C17", "Expressions sent to another process arrive as what was sent",
     "Whatever SX and MX expressions are written with multiprocessing's pickler once yaocptool is imported, alone or inside lists, "
     "dictionaries and vectors, each message can be read in any order, any number of times, by any process, written again and sent on. "
     "What is read is what was written: the same symbols by name, the same part of each in every expression, the same constants, "
     "whatever other messages were written or read before, between or inside.",
     ["histories", "inputs"], "every order of writing and reading messages, in several processes",
     "Tests do not send expressions at all.",
     ["yaocptool/util/serializer.py"],
     [("NewForkingPickler / CasadiPicklerDepickler", "yaocptool/util/serializer.py")],
     "Messages.tla", BOUND + "Histories of up to twenty writes, reads, relays through another process and restarts of it.")

prop("C18", "A time limit interrupts its own block, exactly at its limit",
     "A block run under util.timeout is interrupted by a TimeoutError with its message when its seconds are over and not before, however "
     "such blocks are nested, reused or follow each other and whatever is raised and caught in them; the limit of an outer block and an "
     "alarm of the application stay in force inside and after inner blocks, and after the outermost block handler and alarm are as before it. "
     "timedout says True after a block exactly if its own limit was reached and False otherwise. With raise_exc=False exactly the "
     "block's own interruption is silenced, also as the cause of another exception; everything else passes on.",
     ["histories", "fault_sequences"], "every nesting and sequence of limits, exceptions and durations",
     "Tests do not use time limits at all.",
     ["yaocptool/util/timeout.py"],
     [("timeout", "yaocptool/util/timeout.py")],
     "Timeout.tla", BOUND + "Up to five nested frames and thirty steps; time and the alarm signal are virtual; two limits at one instant are left open.")

prop("C19", "The indirect method solves the necessary conditions of optimality",
     "create_adjoint_states adds to a problem one adjoint state per state with lamb' = -dH/dx, one multiplier per algebraic equation with "
     "dH/dy = 0 and the transversality condition lamb(t_f) = dV/dx + (dh_final/dx)'eta, for H = L + lamb'f + nu'g, and nothing else changes. "
     "IndirectMethod replaces every control, everywhere in the problem, by the minimiser of H within its bounds, warns about and ignores bounds on "
     "states, and refuses an H that is linear in the controls. On problems with a known extremal, with either scheme, any degree, start "
     "time, parameter, theta per element, algebraic variable and final constraint, solve returns that extremal: states, adjoints, algebraics and controls "
     "at their times.",
     ["inputs", "configurations"], "every polynomial problem; every combination of scheme, degree, grid and problem features",
     "Tests solve one linear-quadratic problem and compare the objective.",
     [S + "classic/indirectmethod.py", M + "ocp.py", M + "system_model.py"],
     [("IndirectMethod.prepare / calculate_optimal_control / _check_bounds", S + "classic/indirectmethod.py"), ("create_adjoint_states", M + "ocp.py")],
     "Adjoint.tla, Extremal.tla", BOUND + "Quadratic dynamics, equations, costs and final constraints in up to two states, two algebraics and two controls, bounds "
     "only without coupling between the controls; extremals that are polynomials of degree up to five on each of up to three elements.")

prop("C20", "Vectors, names, thetas and polynomial pieces are handled entry by entry",
     "For every vector of symbols the positions, removals (by symbol or by index, counted from either end) and look-ups by name, pattern and "
     "variable type give exactly the entries asked for, in order, and refuse what is not there or, where one is asked for, not unique; "
     "what was passed in is left as it was. join_thetas concatenates per element, in order, skipping empty ones and refusing different "
     "elements, and create_constant_theta has the given value for every entry of every element. A polynomial approximation takes the "
     "given values at its points and reproduces every polynomial of its degree, row by row, a change from tau to time keeps its values, "
     "expm is the matrix exponential, is_equality and is_inequality tell relations apart, and a Timer reads the time its block took.",
     ["inputs"], "every vector, selection, pattern, theta, degree and matrix",
     "Tests call most of these functions with one or two fixed arguments.",
     ["yaocptool/util/util.py", M + "system_model.py"],
     [("find_variables_indices_in_vector / remove_variables_from_vector(_by_indices) / find_variables_in_vector_by_name / join_thetas / create_constant_theta / create_polynomial_approximation / convert_expr_from_tau_to_time / expm", "yaocptool/util/util.py"),
      ("SystemModel.include_variables / get_variable_by_name / get_variables_by_names", M + "system_model.py")],
     "Vectors.tla", BOUND + "Vectors of up to four entries, names of up to three letters, degrees up to three, nilpotent matrices of up to four rows (whose exponential is exact).")

prop("C21", "The Kalman filters give the Kalman estimate of linear systems",
     "Given a model whose states evolve linearly, a mean, a covariance, noise covariances and a measurement equation (matrices or a function of states, "
     "algebraics and controls), each call of estimate of the extended, unscented and polynomial chaos filters returns the Kalman estimate: the exact "
     "prediction over one sampling time from the filter's own time with the given control, parameter and theta, corrected by gain times innovation, and its covariance. "
     "Successive estimates build on each other, advance the filter's time, and are recorded in its data set with the estimated algebraics and measurements "
     "at the given times; what was given or returned before is left alone. A filter with algebraic variables but no guess for them, with no "
     "measurement equation or with too few samples is refused, and the ideal estimator returns the measured states.",
     ["inputs", "histories"], "every linear model, measurement, covariance and history of controls and readings",
     "No test touches the estimators.",
     ["yaocptool/estimation/extended_kalman_filter.py", "yaocptool/estimation/unscented_kalman_filter.py", "yaocptool/estimation/pce_kalman_filter.py",
      "yaocptool/estimation/ideal_estimator.py", "yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py"],
     [("estimate", "yaocptool/estimation/*.py"), ("get_ls_factor", "yaocptool/stochastic/pce.py"),
      ("sample_parameter_normal_distribution_with_sobol", "yaocptool/stochastic/util.py")],
     "Kalman.tla", BOUND + "Up to two states, one algebraic, two measurements, three estimates in a row; the covariance and value of algebraics kept by the extended "
     "filter are left open, and so is its use of measured algebraics.")

prop("C22", "Polynomial chaos expansions reproduce polynomials of normal variables",
     "For every number of variables, order, number of samples, mean and covariance, the samples have the asked mean and covariance structure (the same standard "
     "normal design, scaled by a Cholesky factor; logarithms of them for the log-normal ones), and the factor of get_ls_factor, applied to the values of a polynomial of "
     "at most the order of the expansion at those samples, gives its coefficients over products of Hermite polynomials, the mean first. "
     "The returned polynomials are those products, the expansion has the polynomial's values everywhere, and the returned expectations of their squares give its "
     "variance, up to the error of their Monte Carlo estimate.",
     ["inputs", "configurations"], "every polynomial, mean, covariance, order and number of samples",
     "No test touches the expansions.",
     ["yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py"],
     [("get_ls_factor", "yaocptool/stochastic/pce.py"),
      ("sample_parameter_normal_distribution_with_sobol / sample_parameter_log_normal_distribution_with_sobol", "yaocptool/stochastic/util.py")],
     "Chaos.tla", BOUND + "Up to three variables; order up to ten for one variable (fitted up to order six), four for two and two for three; regularisation (lamb) left open.")
