#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

prop('C01', 'The scenario tree is well formed for every horizon and uncertainty count',
 'For every prediction horizon, robust horizon and number of parameter combinations, stage k has exactly (combinations)^min(k, robust horizon) nodes, the children of all nodes of a stage are exactly the nodes of the next stage (each once), and the recorded parent of every child is the node it was created from. '
 'While branching, the b-th child of a node uses the b-th parameter combination; after the robust horizon every scenario has one child and keeps the combination of its last branching. '
 'The table of scenarios lists, for each leaf, the nodes on the path from the root to that leaf.',
 ['configurations'], 'all n_horizon >= 1, 0 <= n_robust <= n_horizon, n_combinations >= 1',
 'The tests use n_robust 0 or 1 and only compare closed-loop trajectories of fixed examples; the index arithmetic must hold for every horizon / branching.',
 ['do_mpc/optimizer.py'], [('scenario tree construction', 'do_mpc/optimizer.py:Optimizer._setup_scenario_tree')],
 [('scenario_tree', 'branch counts, node counts, parents, branch offsets, path table')])

prop('C02', 'MPC enforces the model and the initial state along every branch of the tree',
 'The optimization problem constrains the predicted initial state to the given current state, and for every node and every one of its branches it contains exactly the discretized model equations from that node to its child: with that node\'s state and input, that stage\'s time-varying parameters, that branch\'s parameter values and that branch\'s algebraic states, and zero process noise. '
 'These are equality constraints, no branch is missing or duplicated, and with the open-loop option all scenarios of a stage share one input.',
 ['configurations', 'inputs'], 'all models (SX/MX, ODE/DAE, continuous/discrete), horizons, robust horizons, parameter combinations, collocation settings, scalings and open-loop choices',
 'Example tests run a handful of fixed configurations (n_robust <= 1) and compare trajectories; a wrong index on a deeper branch, another horizon, or with scaling is invisible to them.',
 ['do_mpc/controller/_mpc.py', 'do_mpc/optimizer.py'],
 [('NLP construction', 'do_mpc/controller/_mpc.py:MPC._prepare_nlp'), ('tree indices', 'do_mpc/optimizer.py:Optimizer._setup_scenario_tree'), ('integrator', 'do_mpc/optimizer.py:Optimizer._setup_discretization')],
 [('opt_x', 'scaled optimization variables by stage/scenario/point'), ('nlp_cons, nlp_cons_lb, nlp_cons_ub', 'constraint rows and their bounds')])

prop('C03', 'MPC minimizes the configured cost over the scenario tree',
 'The objective equals the sum over all branches of the user\'s stage cost weighted by one over the number of nodes of the next stage, plus the equally weighted terminal cost at every leaf, plus the input-change penalty against the parent\'s input (the previously applied input at the first stage), plus the penalty of the slack variables. '
 'All cost functions receive physical (unscaled) states, inputs, algebraic states and the parameters of that branch; only the built-in quadratic input-change penalty acts on scaled input differences.',
 ['configurations', 'inputs'], 'all objectives, rterm kinds (default factors or user expression), horizons, trees, scalings, soft constraints',
 'Reference trajectories of a few examples cannot distinguish costs with wrong weights, wrong parent input or wrong leaf for configurations they do not contain.',
 ['do_mpc/controller/_mpc.py', 'do_mpc/optimizer.py'],
 [('objective accumulation', 'do_mpc/controller/_mpc.py:MPC._prepare_nlp'), ('objective functions', 'do_mpc/controller/_mpc.py:MPC.set_objective, MPC.set_rterm'), ('slack cost', 'do_mpc/optimizer.py:Optimizer._setup_nl_cons')])

prop('C04', 'Nonlinear constraints hold on every branch, softened only by their own slack',
 'Every user constraint g <= ub appears with its upper bound (and no lower bound) for every branch at the beginning of each interval, or at the beginning and all collocation points of each interval when configured so, evaluated on unscaled variables and the parameters of that branch. '
 'A soft constraint is relaxed by exactly its own non-negative slack variable, bounded by the maximum violation and penalized with its weight; hard constraints have no slack. '
 'With the single-slack option one slack per scenario is shared over the horizon, otherwise each stage has its own.',
 ['configurations', 'inputs'], 'all constraint expressions, bounds, soft/hard mixes, slack options, collocation options, trees and scalings; MPC and MHE',
 'No test uses collocation-point checking in MPC or mixes several hard and soft constraints; whether a constraint is present at each node cannot be seen from trajectories where it is inactive.',
 ['do_mpc/optimizer.py', 'do_mpc/controller/_mpc.py', 'do_mpc/estimator/_mhe.py'],
 [('constraint definition', 'do_mpc/optimizer.py:Optimizer.set_nl_cons, _setup_nl_cons'), ('constraint rows', 'do_mpc/controller/_mpc.py:MPC._prepare_nlp'), ('MHE rows', 'do_mpc/estimator/_mhe.py:MHE._prepare_nlp')])

prop('C05', 'Bounds and scaling set by the user reach exactly the matching variables',
 'A bound set for a named state, algebraic state, input or estimated parameter is returned by the corresponding query and limits that variable, divided by its scaling factor, at every stage and scenario where bounds apply: states before the end of the MPC horizon (never the given initial state), the terminal bounds (which default to the state bounds when terminal bounds are enabled) at its end, all states of the MHE horizon, algebraic states and inputs everywhere. '
 'Other variables stay unlimited, changing a bound after setup takes effect on the next solve, and reported physical values are the optimizer\'s values times the scaling factors.',
 ['configurations', 'inputs', 'histories'], 'all bound/scaling assignments before or after setup, collocation-bound options, terminal-bound options, horizons and trees',
 'Tests set bounds once before setup; updates after setup, asymmetric terminal bounds, element-wise bounds and the interplay with scaling are not exercised.',
 ['do_mpc/optimizer.py', 'do_mpc/controller/_mpc.py', 'do_mpc/estimator/_mhe.py'],
 [('bounds/scaling properties', 'do_mpc/optimizer.py:Optimizer.bounds, scaling, lb_opt_x, ub_opt_x'), ('terminal bounds', 'do_mpc/controller/_mpc.py:MPC.terminal_bounds'), ('bound propagation', 'do_mpc/controller/_mpc.py:MPC._update_bounds; do_mpc/estimator/_mhe.py:MHE._update_bounds')])

prop('C06', 'Each MPC step solves the current problem and applies its first input',
 'A controller step solves the problem for the given state, the parameters and time-varying parameters of the current time and the previously applied input, starting from the previous primal and dual solution, and returns the unscaled input of the first stage. '
 'It records exactly the values used in that step (state, input, algebraic state, parameters, time, auxiliary expressions, and if configured the full solution, multipliers and solver statistics) and then advances time by one step and remembers the returned input. '
 'The initial guess fills all states, inputs and algebraic states with the scaled current values.',
 ['histories', 'inputs', 'configurations'], 'all sequences of steps, states, parameter functions, scalings and storage options',
 'The tests run one fixed closed loop per example; time offsets, previous inputs under scaling or recorded fields that are not compared can be wrong unnoticed.',
 ['do_mpc/controller/_mpc.py', 'do_mpc/optimizer.py'],
 [('step', 'do_mpc/controller/_mpc.py:MPC.make_step'), ('solver call', 'do_mpc/optimizer.py:Optimizer.solve'), ('initial guess', 'do_mpc/controller/_mpc.py:MPC.set_initial_guess')],
 [('_t0, _x0, _u0, _z0', 'current iterate'), ('opt_p_num, opt_x_num, lam_x_num, lam_g_num', 'parameters, guess and multipliers')])

prop('C07', 'Orthogonal collocation discretizes the model consistently for every order',
 'For every polynomial degree, number of finite elements and collocation scheme, the discretization demands at every collocation point of every element that the derivative of the interpolating polynomial equals the scaled model right-hand side times the element length, that the algebraic equations hold at every point including the element starts, that elements are connected continuously, and that the final state is the polynomial evaluated at the end of the last element. '
 'Discrete-time models are advanced by exactly one model evaluation and keep their algebraic equations; the number of equations always equals the number of introduced unknowns.',
 ['configurations', 'inputs'], 'all degrees >= 1, finite-element counts >= 1, radau/legendre, step sizes, scalings and models with or without algebraic states',
 'Tests use degree 2 or 3 with 1 or 2 elements and compare trajectories to 1e-5-ish tolerances; errors that only matter for several elements, other degrees, algebraic states or scaling pass.',
 ['do_mpc/optimizer.py'], [('discretization', 'do_mpc/optimizer.py:Optimizer._setup_discretization')])

prop('C08', 'MHE estimates by the configured least-squares problem over its window',
 'The estimator\'s problem consists of the discretized model over the window with estimated process noise, the measurement equations tying each stored measurement to the state one step later with estimated measurement noise, and, as cost, the arrival cost on the first state and parameters plus the stage cost of the noises at every step plus slack penalties. '
 'Estimated parameters are constant over the window and enter every function together with the fixed parameters in the model\'s order; all user functions see physical (unscaled) values.',
 ['configurations', 'inputs'], 'all models, horizons, choices of estimated parameters, noises, weights, objectives and scalings',
 'One example exercises the MHE with unit parameter scaling; parameter order, scaling, discrete models and custom objectives are not covered.',
 ['do_mpc/estimator/_mhe.py', 'do_mpc/optimizer.py'],
 [('NLP construction', 'do_mpc/estimator/_mhe.py:MHE._prepare_nlp'), ('objective', 'do_mpc/estimator/_mhe.py:MHE.set_objective, set_default_objective'), ('parameter split', 'do_mpc/estimator/_mhe.py:MHE.__init__')])

prop('C09', 'Each MHE step uses the latest measurements and returns the newest estimate',
 'An estimator step appends the measurement to the history and solves with the most recent measurements in chronological order (the oldest available one fills missing slots), the previous parameter estimate, the previous window\'s second state as prior, and the time-varying parameters and fixed parameters of the current time. '
 'It returns the unscaled last state of the window, records the step\'s data, advances time by one step and keeps the new state, parameter and input estimates as current values.',
 ['histories', 'inputs'], 'all measurement sequences, step counts below and beyond the window length, scalings and parameter choices',
 'One example with a user-defined measurement function is tested; the built-in measurement window, scaling and the transition from a partially to a fully filled window are not.',
 ['do_mpc/estimator/_mhe.py', 'do_mpc/optimizer.py'],
 [('step', 'do_mpc/estimator/_mhe.py:MHE.make_step'), ('measurement window', 'do_mpc/estimator/_mhe.py:MHE._check_validity (y_fun)'), ('solver call', 'do_mpc/optimizer.py:Optimizer.solve')])

prop('C10', 'A simulator step advances the model by exactly one sampling interval',
 'A simulator step applies the given input, the parameters and time-varying parameters of the current time and the given process noise (zero by default): discrete models are evaluated once with algebraic states solving their equations, continuous models are integrated over exactly one step length with the configured integrator. '
 'It returns the measurement function evaluated at the new state with the given measurement noise (zero by default), records the previous state, input, parameters, time and the measurement, and advances state and time by one step; inputs or noises of wrong shape are rejected. Algebraic states initialised on request solve the algebraic equations at the current state, input, parameters and time.',
 ['histories', 'inputs', 'configurations'], 'all models, step sequences, inputs, noises, parameter functions and tolerances',
 'Tests never pass noise, use a fixed step length and compare stored trajectories only.',
 ['do_mpc/simulator.py'], [('step', 'do_mpc/simulator.py:Simulator.make_step, simulate'), ('setup', 'do_mpc/simulator.py:Simulator.setup')])

prop('C11', 'Recorded data is append-only and queries return exactly the named elements',
 'Every update of a data field appends one row holding the given values and leaves all earlier rows and other fields unchanged; unknown fields are rejected. '
 'A query by variable name (and element) returns exactly the columns of that variable for all rows, repeated queries return the current data, and the prediction query returns for a stored step, per scenario from root to leaf, the values of the nodes on that scenario\'s path.',
 ['histories', 'inputs', 'configurations'], 'all sequences of updates and queries, variable layouts, horizons and trees',
 'Tests compare whole stored arrays; cached queries, element queries and multi-branch predictions are not tested.',
 ['do_mpc/data.py', 'do_mpc/optimizer.py'], [('append', 'do_mpc/data.py:Data.update'), ('query', 'do_mpc/data.py:Data.__getitem__'), ('prediction', 'do_mpc/data.py:MPCData.prediction')])

prop('C12', 'LQR computes the Riccati gain and applies the set-point control law',
 'With a finite horizon the gain is the one obtained after exactly that many Riccati steps starting from the terminal weight; without a horizon it is the gain of the stabilizing solution of the discrete algebraic Riccati equation. '
 'A step returns gain times the deviation from the set-point plus the set-point input; with input-rate penalization the gain acts on the state augmented by the previous input, the weights are composed of the state, input and rate weights, and the result is added to the previous input. '
 'Set-points may be changed at any time, each independently of the other, and each step records its state, input and time and advances time.',
 ['configurations', 'inputs', 'histories'], 'all discrete linear systems, weights, horizons >= 1, set-point sequences and both modes',
 'Two examples with the infinite-horizon gain are tested; finite horizons, rate mode set-point changes and step sequences are not.',
 ['do_mpc/controller/_lqr.py'], [('gain', 'do_mpc/controller/_lqr.py:LQR.discrete_gain'), ('law', 'do_mpc/controller/_lqr.py:LQR.make_step, set_setpoint'), ('weights', 'do_mpc/controller/_lqr.py:LQR.setup, set_rterm, set_objective')])

prop('C13', 'Linear models represent the given or linearized system exactly',
 'A linear model set up from matrices has exactly these matrices as state, input, output and feedthrough matrices (state measurements if no output is given) and rejects nonlinear expressions and wrongly shaped matrices. '
 'Linearizing a model yields the Jacobians of its right-hand side and measurement at the given point, discretizing yields the discretized system of the requested method and step, and the steady state returned for an input or state satisfies x = A x + B u whenever it is unique.',
 ['inputs', 'configurations'], 'all systems, operating points, step sizes and conversion methods',
 'Tests linearize two fixed models; feedthrough, measurement matrices, singular systems and steady-state queries are not covered.',
 ['do_mpc/model/_linearmodel.py', 'do_mpc/model/_linearize.py', 'do_mpc/model/_model.py'],
 [('setup', 'do_mpc/model/_linearmodel.py:LinearModel.setup'), ('linearize', 'do_mpc/model/_linearize.py:linearize; do_mpc/model/_model.py:Model.get_linear_system_matrices'), ('discretize, steady state', 'do_mpc/model/_linearmodel.py:LinearModel.discretize, get_steady_state')])

prop('C14', 'DAE-to-ODE conversion preserves the dynamics',
 'Converting a continuous DAE model yields an ODE model whose states are the original states, inputs and algebraic states and whose inputs are the rates of the original inputs: the state equations are unchanged, each input (also vector valued) integrates its own rate, and the algebraic states follow the total time derivative of the algebraic equations. '
 'Consequently the algebraic residual is invariant along solutions of the converted model.',
 ['inputs', 'configurations'], 'all index-1 DAE models with any number and size of inputs, states and algebraic states, with constant parameters',
 'One example with scalar inputs is compared through its closed loop.',
 ['do_mpc/model/_dae2odeconversion.py'], [('conversion', 'do_mpc/model/_dae2odeconversion.py:dae2odeconversion')])

prop('C15', 'A model evaluates exactly the equations the user declared',
 'After setup the right-hand side, algebraic, auxiliary and measurement functions return the declared expressions for all values of states, inputs, algebraic states, parameters, time-varying parameters and noises, arranged in declaration order, with one additive noise per equation declared noisy and none otherwise; undeclared measurements default to the full state. '
 'The documented variable type names and their aliases are equivalent; duplicate names, missing right-hand sides, unequal numbers of algebraic equations and variables, and changes after setup are rejected; a pickled and restored model evaluates identically.',
 ['inputs', 'configurations', 'histories'], 'all declaration orders, shapes, SX/MX, noise flags and variable types',
 'Tests build a few fixed models and compare closed-loop results.',
 ['do_mpc/model/_model.py'], [('declaration', 'do_mpc/model/_model.py:Model.set_variable, set_rhs, set_alg, set_meas, set_expression'), ('setup', 'do_mpc/model/_model.py:Model.setup, _substitute_struct_vars'), ('pickling', 'do_mpc/model/_model.py:Model.__getstate__, __setstate__')])

prop('C16', 'Uncertainty values span all combinations, nominal first',
 'Given lists of possible values for named parameters, the controller considers exactly the Cartesian product of these values: each combination appears once as one parameter realization in the order of the product, the first being the first value of every list, and parameters not listed are zero. '
 'A user-supplied parameter function must match the declared number of combinations and returns its realizations unchanged; time-varying parameter functions of the wrong layout are rejected.',
 ['inputs', 'configurations'], 'all numbers of uncertain parameters and values, scalar or vector valued',
 'Tests use one or two scalar parameters and n_robust <= 1.',
 ['do_mpc/controller/_mpc.py', 'do_mpc/optimizer.py'], [('uncertainty values', 'do_mpc/controller/_mpc.py:MPC.set_uncertainty_values'), ('parameter template/function', 'do_mpc/controller/_mpc.py:MPC.get_p_template, set_p_fun; do_mpc/optimizer.py:set_tvp_fun')])

prop('C17', 'A sampling plan contains exactly the requested cases with unique ids',
 'Every added case gets all declared sampling variables: the given values, and generated values for the others (an error if none can be generated); undeclared variables are rejected. '
 'Cases are appended in order without changing earlier ones, ids are unique consecutive zero-padded numbers, generating n cases adds exactly n, a product adds every combination of the given lists exactly once, and exporting never overwrites an existing plan unless configured to.',
 ['inputs', 'histories'], 'all sequences of additions, numbers of cases and variables, id precisions',
 'One test generates one plan of fixed size.',
 ['do_mpc/sampling/_samplingplanner.py', 'do_mpc/tools/__init__.py'], [('cases', 'do_mpc/sampling/_samplingplanner.py:SamplingPlanner.add_sampling_case, gen_sampling_plan, product'), ('export', 'do_mpc/sampling/_samplingplanner.py:SamplingPlanner.export')])

prop('C18', 'Samples are computed once, stored under their id and read back unchanged',
 'Sampling a plan calls the sample function exactly once per case with exactly that case\'s variables and stores the result under the case\'s id; existing results are neither recomputed nor overwritten unless configured to. '
 'The data handler returns, for the selected or filtered cases in plan order, the case\'s variables with the stored result (nothing if missing) and every post-processing function applied to the result, or to case and result for two-argument functions.',
 ['inputs', 'histories'], 'all plans, subsets, filters, post-processing functions and repeated or interrupted runs',
 'One test runs one plan end to end.',
 ['do_mpc/sampling/_sampler.py', 'do_mpc/sampling/_datahandler.py', 'do_mpc/tools/__init__.py'], [('sampling', 'do_mpc/sampling/_sampler.py:Sampler.sample_idx, sample_data, _save'), ('retrieval', 'do_mpc/sampling/_datahandler.py:DataHandler.__getitem__, filter, _lazy_loading, _post_process_single')])

prop('C19', 'Saved results round-trip and never overwrite silently',
 'Saving results of controllers, simulators and estimators stores each object\'s data under its kind and loading returns equal data. '
 'Unless overwriting is requested, saving always uses a file name that did not exist before and leaves every existing file untouched; with overwriting requested exactly the named file is replaced.',
 ['histories', 'inputs'], 'all sequences of saves with equal or different names into one directory',
 'The tests always save with overwrite into one file.',
 ['do_mpc/data.py'], [('save', 'do_mpc/data.py:save_results'), ('load', 'do_mpc/data.py:load_results')])

prop('C20', 'Solution sensitivities solve the linearized optimality conditions',
 'For a solved problem the returned sensitivities of the variables and multipliers with respect to all parameters solve the linear system obtained by differentiating the optimality conditions on the active constraints; multipliers of inactive constraints have zero sensitivity. '
 'Variables and parameters that do not occur in the problem have zero sensitivity and all rows and columns refer to the original ordering; for a controller the sensitivities are reported for physical variables. The reported constraint qualification, strict complementarity and rank belong to the active constraints and the reduced system, and a system that could not be solved is reported.',
 ['inputs', 'configurations'], 'all problems with a regular solution, active sets, unused variables/parameters, linear solvers and scalings',
 'No stable test covers the differentiator.',
 ['do_mpc/differentiator/_nlpdifferentiator.py'], [('system', 'do_mpc/differentiator/_nlpdifferentiator.py:NLPDifferentiator._prepare_sensitivity_matrices, _get_active_constraints, _reduce_sensitivity_matrices'), ('mapping', 'do_mpc/differentiator/_nlpdifferentiator.py:_map_dlamdp, _map_param_sens_to_full, DoMPCDifferentiator.differentiate')])

prop('C21', 'ONNX networks are converted to equivalent symbolic expressions',
 'Converting a network consisting of the supported operations (matrix products, general matrix multiplication with its scaling and transposition attributes and an optional constant or computed bias, additions, products, differences, sums and the activations tanh, sigmoid, relu and elu with its parameter) yields expressions that for every input evaluate to the ONNX semantics of the network, also for every intermediate layer (operands of element-wise operations have equal shape, one element, or are a vector along the last axis of a one-row matrix). '
 'Unsupported operations and wrong input names or shapes are rejected.',
 ['inputs', 'programs'], 'all networks composed of the listed operations, all weights and inputs',
 'One network is tested on samples.',
 ['do_mpc/sysid/_onnxconversion.py'], [('graph traversal', 'do_mpc/sysid/_onnxconversion.py:ONNXConversion.convert'), ('operations', 'do_mpc/sysid/_onnxconversion.py:ONNXOperations')])

prop('C22', 'The plot data structure returns exactly what was stored under an index',
 'Storing values (nested lists or dictionaries introduce further indices) under a power index and reading them back returns exactly the stored objects in insertion order; storing again under an existing index replaces only that value. '
 'Partial indices and slices select exactly the stored values whose leading indices match, grouped by the sliced index.',
 ['histories', 'inputs'], 'all sequences of stores and queries with keys of any depth',
 'The structure is only used indirectly for plotting; no test reads it.',
 ['do_mpc/tools/_structure.py'], [('store', 'do_mpc/tools/_structure.py:Structure.__setitem__'), ('query', 'do_mpc/tools/_structure.py:Structure._select')])

prop('C23', 'Real-time clients exchange each element with exactly its own tag',
 'A real-time step reads the configured input tags in order into one column vector, performs exactly one step of the wrapped object with it and writes the elements of the result in order to the configured output tags, rejecting results whose size differs from the number of tags. '
 'The default namespace contains one node per element of every model variable, the server registers each of them once under a unique name, and clients address nodes by that name.',
 ['inputs', 'histories', 'configurations'], 'all models, tag lists and step results',
 'No stable test exercises the OPC UA layer.',
 ['do_mpc/opcua/_base.py', 'do_mpc/opcua/_helper.py', 'do_mpc/opcua/_server.py'], [('step', 'do_mpc/opcua/_base.py:RTBase.make_step, write_to_tags, read_from_tags'), ('namespace', 'do_mpc/opcua/_base.py:RTBase.namespace_from_model; do_mpc/opcua/_helper.py:Namespace; do_mpc/opcua/_server.py:namespace_from_client')])

prop('C24', 'Current values and settings accept only consistent data and act as set',
 'Current state, input, algebraic state, parameter estimate and time accept arrays, vectors or structures of matching size, are returned with exactly the assigned values, and anything else is rejected leaving the value unchanged. '
 'Settings given by name before setup change exactly that setting and nothing else; after setup, structural changes (settings, objective, constraints, scaling, model) are rejected, as are steps before setup and problem accesses before preparation; inconsistent bounds or missing objective, parameter or time-varying parameter functions make setup fail.',
 ['inputs', 'histories', 'configurations'], 'all call orders of the public setup methods and all argument types and shapes',
 'The tests only follow the correct call order with valid arguments.',
 ['do_mpc/model/_iteratedvariables.py', 'do_mpc/optimizer.py', 'do_mpc/controller/_mpc.py', 'do_mpc/estimator/_mhe.py', 'do_mpc/simulator.py'],
 [('current values', 'do_mpc/model/_iteratedvariables.py:IteratedVariables'), ('guards', 'do_mpc/optimizer.py; do_mpc/controller/_mpc.py:MPC._check_validity; do_mpc/estimator/_mhe.py:MHE._check_validity; do_mpc/simulator.py:Simulator._check_validity')])

prop('C25', 'Plots show exactly the recorded and predicted data',
 'Every result line shows, for exactly its element of its variable, the recorded times and values: all of them by default, otherwise those up to and including the given time index (counted from the end if negative). '
 'Every prediction line shows the prediction of its element and scenario made at the given time index, starting at the time of that point and advancing by the time step, in the color of its result and dashed; inputs are drawn as steps. Adding lines leaves other lines unchanged and clearing empties exactly the selected ones. '
 'The default plot has one labelled axis per requested variable (states, algebraic states, inputs, expressions in this order) and rejects unknown ones. Animations show in each frame its point in time and never overwrite an existing file unless asked to.',
 ['inputs', 'histories', 'configurations'], 'all models, recorded data, lines, time indices and existing files',
 'The tests never look at what a figure shows.',
 ['do_mpc/graphics.py'], [('results and predictions', 'do_mpc/graphics.py:Graphics.plot_results, plot_predictions, add_line, clear'), ('default plot and animation', 'do_mpc/graphics.py:default_plot, animate')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
