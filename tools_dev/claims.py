CL = {
 'C02': ('proof', 'contracts on MPC._prepare_nlp (constraint rows) and create_nlp, own VC generator over the real AST, normal form prover + z3', 'Unbounded in horizon, branching, collocation points and dimensions; the discretization function enters by its contract (C07), the tree by its contract (C01).'),
 'C03': ('proof', 'contracts on MPC._prepare_nlp (objective), __init__, set_objective, set_rterm and create_nlp, own VC generator over the real AST, normal form prover + z3', 'Unbounded in horizon, branching, collocation points and dimensions; cost functions uninterpreted. set_objective and set_rterm bounded in the number of named variables.'),
 'C04': ('proof', 'contracts on MPC._prepare_nlp and MHE._prepare_nlp (inequality rows), Optimizer.set_nl_cons and _setup_nl_cons, own VC generator over the real AST, normal form prover + z3', 'Unbounded in horizon, branching, collocation points and dimensions; constraint function uninterpreted. _setup_nl_cons: every size, bound, penalty and expression, bounded in the number of named constraints (at most three).'),

 'C05': ('proof', 'contracts on MPC/MHE._prepare_nlp, _update_bounds and the bounds properties, own VC generator over the real AST, normal form prover + z3', 'Unbounded in horizon, scenarios and dimensions.'),
 'C06': ('proof', 'contracts on MPC.make_step, Optimizer.solve, MPC.set_initial_guess and Optimizer._prepare_data, own VC generator over the real AST, z3', 'All flag combinations; the solver itself is an assumed external function.'),
 'C07': ('proof', 'contract on Optimizer._setup_discretization (loop summaries for every degree and element count), own VC generator over the real AST, normal form prover + z3', 'Unbounded in polynomial degree, number of elements and dimensions, both schemes; model equations uninterpreted; the collocation points themselves come from casadi.'),
 'C08': ('proof', 'contracts on MHE._prepare_nlp (rows and objective), create_nlp, __init__, set_objective and set_default_objective, own VC generator over the real AST, normal form prover + z3', 'Unbounded in window length, collocation points and dimensions; model and cost functions uninterpreted. Partition of the parameters and cost setters: bounded in the number of named variables (at most three parameters, every partition and order).'),
 'C09': ('proof', 'contracts on MHE.make_step, the default measurement function, set_initial_guess and _prepare_data, own VC generator over the real AST, z3', 'All histories and window lengths; the solver itself is an assumed external function.'),
 'C10': ('proof', 'contracts on Simulator.simulate, make_step, setup, set_initial_guess and the default functions, own VC generator over the real AST, z3', 'All models and dimensions; the integrator and the root finder are assumed external functions whose problem is specified.'),
 'C12': ('proof', 'contracts on LQR.discrete_gain (loop invariant), setup, set_objective, set_rterm, set_setpoint and make_step, own VC generator over the real AST, normal form prover + z3', 'All dimensions, horizons and set-point histories; the algebraic Riccati solver is an assumed external function.'),
 'C11': ('proof', 'contracts on Data.__init__, init_storage, update, __getitem__, export and MPCData.prediction, own VC generator over the real AST, normal form prover + z3', 'All histories, layouts, horizons and trees; the query caches by an invariant; the index maps of casadi structures are assumed.'),
 'C13': ('proof', 'contracts on LinearModel.set_rhs, set_meas, setup, discretize, get_steady_state, linearize, Model.get_linear_system_matrices and _transfer_variables, own VC generator over the real AST, normal form prover + z3', 'All matrices, dimensions, functions and points, but bounded in the number of named variables of each kind (those obligations are reported separately and not counted as proved); scipy and numpy linear algebra are assumed external functions.'),
 'C14': ('other', 'contract on dae2odeconversion with symbolic dimensions, functions and points, own VC generator over the real AST, normal form prover + z3; bounded in the number of named variables', 'Every obligation holds for all dimensions, functions, parameters and points, but only for four declarations with at most three named variables of each kind: labelled bounded, not counted as proved.'),
 'C15': ('proof', 'contracts on Model.set_variable, set_rhs, set_meas, set_expression, set_alg, setup and the pickled state, own VC generator over the real AST, normal form prover + z3', 'Definition operations: all histories, sizes and value types. setup: all sizes, functions and points, but bounded in the number of named variables (five configurations); those obligations are reported separately and not counted as proved.'),
 'C16': ('proof', 'contracts on MPC.set_uncertainty_values, get_p_template, set_p_fun, get_tvp_template, set_tvp_fun and the MHE and simulator counterparts, own VC generator over the real AST, z3', 'All values, numbers of values, horizons and layouts; bounded to at most three listed parameters out of four, in any order.'),
 'C17': ('proof', 'contracts on SamplingPlanner.__init__, set_param, set_sampling_var, add_sampling_case, gen_sampling_plan, product and export over a ghost file system, own VC generator over the real AST, z3', 'All existing plans, values, numbers of samples, list lengths and files; add_sampling_case and product are bounded in the number of variables (three), those obligations are reported separately and not counted as proved.'),
 'C18': ('proof', 'contracts on Sampler._save_name, _save, sample_idx, sample_data, set_sample_function and DataHandler._load, _lazy_loading, _post_process_single, __getitem__, filter, set_post_processing over a ghost file system, own VC generator over the real AST, z3', 'All plans, positions, existing files, caches and filters; cases are bounded to two named variables, tuples of positions to three entries (lists of any length are proved for valid positions).'),
 'C19': ('proof', 'contracts on save_results and load_results over a ghost file system (loop rule for the search of a free name), own VC generator over the real AST, z3', 'All names, folders and existing files; the saved objects are bounded to sequences of at most three (reported separately, not counted as proved); pickle round trip is assumed, sampled by the bounded check.'),
 'C20': ('proof', 'contracts on NLPDifferentiator.__init__, differentiate and every function they call and on DoMPCDifferentiator, own VC generator over the real AST with index vectors and matrices by their elements, normal form prover + z3', 'All numbers of variables, constraints and parameters, all unused ones, active sets and multipliers, three solvers, failing solvers; derivatives by CasADi and the solution of a regular system are assumed external functions.'),
 'C21': ('proof', 'contracts on ONNXConversion.convert, __getitem__ and every listed method of ONNXOperations, own VC generator over the real AST with tensors by their elements, normal form prover + z3 over the reals', 'All graphs with any number of nodes and operands, all matrix sizes and elements; bounded (reported separately, not counted as proved): sums of up to four operands, networks of up to two inputs, rejected graphs of up to three nodes.'),
 'C22': ('other', 'contracts on Structure.__setitem__, __getitem__, _select, _getkeys and get_index over an arbitrary structure satisfying the invariant (induction over histories), own VC generator over the real AST, z3; bounded in the number of levels of one index', 'Every obligation holds for every number of stored values, every depth of the stored indices, all keys and all slice bounds, but only for queries of up to four and stores of up to three levels; deeper ones are covered by the bounded check only.'),
 'C23': ('proof', 'contracts on RTBase.read_from_tags, write_to_tags, make_step, namespace_from_model, __init__, RTClient.readData/writeData, RTServer.namespace_from_client and the name space helpers, own VC generator over the real AST, z3', 'All tag lists, results, sizes and models; server registration is bounded to name spaces of at most three entries; the OPC UA library is an assumed external interface.'),
 'C24': ('proof', 'contracts on the setters of the current values, set_param, all guards and the validity checks of MPC, MHE and simulator, own VC generator over the real AST, z3', 'All dimensions, value types, flag combinations and setting names (singly, in pairs and all together).'),
 'C25': ('proof', 'contracts on Graphics.plot_results, plot_predictions, clear, add_line, default_plot and animate, own VC generator over the real AST, z3', 'All recorded data, numbers of points and lines, time indices, horizons and existing files; adding lines and default plots are bounded to three variables of two elements and two scenarios (reported separately, not counted as proved); matplotlib is an assumed external interface.'),
}
NA = {}
