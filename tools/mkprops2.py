prop("P02", "Simulated shocks only take steps their law allows",
 "A simulated Markov chain starts in the requested state, and every step goes to an existing state with positive transition probability; with all probability on one successor the path is forced. Simulated autoregressive processes have innovations with the declared covariance, and their deterministic simulations and impulse responses follow the recursion exactly; drawn shocks have the declared law. The same seed gives the same paths, and different paths are drawn independently.",
 ["inputs", "histories"], "all transition matrices (including absorbing states, zero entries and non-exact float rows), starts, horizons and numbers of paths",
 "Tests call simulate once and check shapes; an illegal transition is a matter of particular draws.",
 ["dolo/numeric/processes.py", "dolo/numeric/distribution.py"],
 [("chain state i", "current index", "dolo/numeric/processes.py:MarkovChain.simulate")],
 [("inverse-cdf sampling", "dolo/numeric/processes.py:choice"), ("AR/VAR recursions", "dolo/numeric/processes.py:VAR1.simulate")],
 ["process.simulate(...), process.response(...)"])
prop("D01", "Decision rules reproduce the values they were given",
 "A decision rule built on any exogenous grid and Cartesian endogenous grid returns at every grid node the value it was given there, and elsewhere it is the interpolant of its method: multilinear (extended linearly outside the grid) or natural cubic spline (inside the grid); Taylor expansions, custom formulas and constants evaluate to what they were built from. Evaluating one point, a stack of points, by index of the exogenous state or by its value gives the same numbers in the same order, one row per point and one column per control.",
 ["inputs", "configurations"], "all grid combinations, interpolation methods, node values, evaluation points and calling conventions",
 "Tests evaluate a handful of rules on one model and compare shapes.",
 ["dolo/numeric/decision_rule.py", "dolo/numeric/taylor_expansion.py"],
 [("coefficients", "interpolation coefficients per exogenous node", "dolo/numeric/decision_rule.py:DecisionRule")],
 [("multimethod dispatch over grids and methods", "dolo/numeric/decision_rule.py"), ("conventions eval_s/eval_is/eval_ms/eval_ijs", "dolo/numeric/decision_rule.py:CallableDecisionRule")],
 ["dr(...), dr.eval_s, dr.eval_is, dr.eval_ms, dr.eval_ijs"])
prop("S01", "Simulated paths obey the decision rule and the transition law",
 "Every path produced by a simulation starts at the requested state, its controls are the decision rule's at each date, its next state is the model's transition applied to that date's shock, state and control and next date's shock, and auxiliary columns are the model's auxiliary formulas at the same date. Columns are labelled with the right symbols, and the same seed yields the same paths while different paths use different shocks.",
 ["histories", "inputs"], "all models, decision rules, horizons, numbers of paths, initial states and shock paths",
 "Tests only check that simulate returns; a one-period shift of the shocks has the right shape and plausible values.",
 ["dolo/algos/simulations.py"],
 [("(m,s,x)_t", "the simulated path", "dolo/algos/simulations.py:simulate")],
 [("date-by-date recursion", "dolo/algos/simulations.py:simulate"), ("response, tabulate", "dolo/algos/simulations.py")],
 ["simulate(), response(), tabulate()"])
prop("T01", "Time iteration performs exact backward steps and stops truthfully",
 "Each time-iteration step turns the previous decision rule into one which solves, at every grid node, the optimality conditions with next period's decision taken from the previous rule (within the control bounds). The algorithm stops at the first iteration whose change is below tolerance and reports convergence only then, never performs more than the allowed iterations, and reports and traces exactly the iterations it did.",
 ["histories", "inputs"], "all models, tolerances, iteration limits, initial rules, grids and discretizations",
 "Tests run it to convergence on sample models and do not look at the iterates, the flags or the bounds.",
 ["dolo/algos/time_iteration.py", "dolo/algos/results.py"],
 [("decision rule iterate", "controls on exogenous x endogenous grid", "dolo/algos/time_iteration.py:time_iteration")],
 [("residuals_simple / Newton step / convergence test", "dolo/algos/time_iteration.py")],
 ["time_iteration(..., trace=True, details=True)"])
prop("T02", "Improved time iteration finds the same fixed point",
 "When improved time iteration reports convergence, its decision rule satisfies the optimality and complementarity conditions at every grid node with next period's decisions given by the very same rule, within its tolerance, and controls respect their bounds. It never reports more iterations than allowed nor convergence above tolerance.",
 ["histories", "inputs"], "all models with bounded controls, tolerances, limits and initial rules",
 "Tests run it once on one model and check it returns.",
 ["dolo/algos/improved_time_iteration.py", "dolo/algos/bruteforce_lib.py", "dolo/algos/invert.py"],
 [("decision rule iterate", "", "dolo/algos/improved_time_iteration.py")],
 [("Newton step with Jacobian of the time-iteration operator", "dolo/algos/improved_time_iteration.py"), ("linear operator inversion", "dolo/algos/invert.py")],
 ["improved_time_iteration(...)"])
prop("V01", "Values are the discounted sum of felicities under the policy",
 "The value computed for a policy satisfies, at every grid node, the recursive value equation with the expectation over next period's exogenous states and the policy's own transitions, to the accuracy of the reported tolerance. Value-function iteration returns controls within their bounds which no feasible alternative improves upon and reports convergence truthfully. The policy and the initial guess are left unchanged.",
 ["histories", "inputs"], "all models with felicity and discount, policies, grids and tolerances",
 "Tests only run evaluate_policy and value_iteration on one model.",
 ["dolo/algos/value_iteration.py"],
 [("value on the grid", "", "dolo/algos/value_iteration.py:evaluate_policy")],
 [("fixed-point iteration on the recursive equation", "dolo/algos/value_iteration.py")],
 ["evaluate_policy(...), value_iteration(...)"])
prop("X01", "The perturbation solution satisfies the linearized model and is stable",
 "The first-order decision rule passes through the steady state, satisfies the linearized optimality and transition equations identically in states and shocks, and generates non-explosive dynamics with as many stable roots as states. Models with no or many stable solutions are reported as such.",
 ["inputs", "programs"], "all linear(izable) models, with autocorrelated or iid shocks",
 "Tests solve one model and look at nothing but types.",
 ["dolo/algos/perturbation.py", "dolo/numeric/extern/qz.py", "dolo/numeric/taylor_expansion.py"],
 [("C", "linear coefficients", "dolo/algos/perturbation.py:approximate_1st_order")],
 [("ordered QZ decomposition", "dolo/algos/perturbation.py")],
 ["perturb(model), perturb(..., details=True)"])
prop("F01", "Perfect-foresight paths solve the model at every date",
 "A perfect-foresight path starts from the initial state and shock implied by the arguments, follows the announced exogenous series (its last value persisting), satisfies the transition equations at every date and the optimality conditions (or their bounds) at every date before the last. Optimality at the last date may be replaced by a terminal condition. Failure to find such a path is announced by an exception or a warning, not silently returned as a path; requests that cannot be honoured are refused.",
 ["inputs", "histories"], "all models, exogenous series (shorter or longer than the horizon, partial, as dict/array/table), initial states, horizons and bounds",
 "Tests solve one or two paths and check only that it returns.",
 ["dolo/algos/perfect_foresight.py"],
 [("(m,s,x)_t", "deterministic path", "dolo/algos/perfect_foresight.py:deterministic_solve")],
 [("stacked-time system", "dolo/algos/perfect_foresight.py:det_residual")],
 ["deterministic_solve(...)"])
prop("N01", "Nonlinear solvers only claim convergence at a solution",
 "When a Newton or complementarity solver reports convergence, the returned point satisfies the (complementarity) system within tolerance and the reported residual is the one at that point; solving a stack of independent problems gives each problem its own solution, whatever the representation of the Jacobian. Iteration limits are respected.",
 ["inputs", "histories"], "all (stacks of) smooth systems with bounds, starting points, tolerances and Jacobian representations",
 "Tests solve three or four fixed problems.",
 ["dolo/numeric/optimize/newton.py", "dolo/numeric/optimize/ncpsolve.py", "dolo/numeric/extern/lmmcp.py"],
 [("iterate x", "", "dolo/numeric/optimize/newton.py:newton")],
 [("Newton with backstepping", "dolo/numeric/optimize/newton.py"), ("Fischer-type smoothing", "dolo/numeric/optimize/ncpsolve.py")],
 ["newton(...), serial/sparse variants, ncpsolve(...), lmmcp(...)"])
prop("T03", "Endogenous gridpoints follow the method's recursion",
 "Solving a model by endogenous gridpoints computes, at each iteration, shock and post-state, the control that the direct response gives to the expectations formed with the previous rule (itself clipped to the controls' bounds) under the law of the shocks, and the state it is reached from; the rule is the piecewise linear curve through these points, extended by its end pieces. What is returned is that rule at the grid nodes. Iterations stop at the first change below the tolerance or at the limit, and convergence is reported truthfully. Shocks whose law does not live on their own nodes are refused.",
 ["inputs", "histories", "configurations"], "all models with one state and one control, initial rules, post-state grids, tolerances, limits; iid shocks and Markov chains",
 "The only test runs one iid model and checks nothing but completion.",
 ["dolo/algos/egm.py"],
 [("sa, xa", "endogenous states and controls per shock and post-state", "dolo/algos/egm.py:egm")],
 [("expectations, direct response, reversed state", "dolo/algos/egm.py:egm"), ("piecewise linear rule clipped to the bounds", "dolo/algos/egm.py:drfut")],
 ["egm(model, a_grid, ...)"])
prop("L01", "Batched linear algebra equals the pointwise operation",
 "Each batched operation (product, solve, inversion, differentiation over a stack of points) gives for every point of the stack the result of the ordinary matrix operation on that point's data, and leaves its inputs unchanged unless it is documented to work in place. Matrix-equation solvers return a matrix satisfying the equation.",
 ["inputs"], "all stack sizes, shapes and well-conditioned data, including rows needing pivoting",
 "Tests use one random stack of one shape.",
 ["dolo/numeric/serial_operations.py", "dolo/numeric/matrix_equations.py", "dolo/numeric/tensor.py", "dolo/algos/invert.py"],
 [], [("hand-written Gaussian elimination over stacks", "dolo/numeric/serial_operations.py, dolo/algos/invert.py")],
 ["return values of the batched operations"])
prop("E01", "Ergodic distributions are invariant probability laws",
 "The transition operator of a solved model on its grid is a stochastic matrix that moves each node's mass to the neighbours of its successor so as to preserve the mean of the successor, weighting successors by the exogenous transition probabilities (iid shocks: next period's shock by its weights, the current one at its calibrated value). The reported ergodic distribution is nonnegative, sums to one and is invariant under that operator. Grids and dimensions that are not supported are refused.",
 ["inputs", "configurations"], "all decision rules, exogenous processes and grids of any dimension",
 "Tests run it on one model and check nothing but completion.",
 ["dolo/algos/ergodic.py"],
 [("Pi, mu", "transition operator and invariant law", "dolo/algos/ergodic.py:ergodic_distribution")],
 [("trembling-hand mass splitting", "dolo/algos/ergodic.py")],
 ["ergodic_distribution(...)"])
prop("C01", "Memoized functions are indistinguishable from the functions",
 "A memoized function (in memory or on disk) returns on every call what the underlying function returns on those arguments, across processes sharing the disk cache and whatever calls came before. Arguments which compare equal are the same arguments. It evaluates the function at most once per distinct argument list, except that results which are None or cannot be stored, and calls whose arguments cannot serve as a key, are recomputed, as are entries damaged or partially written on disk. (Callers do not mutate results, and clear the cache when the code of a function changes.)",
 ["histories", "crash_points"], "all call sequences, argument types (numbers, strings, arrays, lists, dicts) and process restarts",
 "Tests call each function twice with one argument.",
 ["dolo/misc/caching.py"],
 [("cache", "argument key -> result", "dolo/misc/caching.py")],
 [("argument hashing", "dolo/misc/caching.py:hashable"), ("disk store", "dolo/misc/caching.py:cachedondisk")],
 ["return values, evaluation counts"])
prop("Q01", "Formulas on data read the right dates",
 "Evaluating a model formula on a table of simulated data gives at each date the value of the formula with each symbol read at its own date (`x(1)` the next row, `x(-1)` the previous row), missing where the needed row does not exist, `t` being the index of the row; undated names stand for their calibrated (or given) values. Dated symbols absent from the table and unknown names are refused.",
 ["programs", "inputs"], "all formulas with leads and lags, all tables",
 "Tests check only that an evaluation runs.",
 ["dolo/compiler/eval_formula.py"],
 [], [("timed symbol substitution", "dolo/compiler/eval_formula.py")],
 ["eval_formula(expr, dataframe, context)"])
prop("K01", "Reported residuals and steady states are those of the model",
 "The residuals reported for a model are the values of its transition and optimality equations at its calibration held constant; a steady state found from any starting guess makes all of them zero while keeping the exogenous values at their mean and parameters unchanged. If none is found this is reported. The display of a model lists its equations in order, next to these residuals, and its name and file.",
 ["inputs", "programs"], "all models and calibrations, including those with lagged or auxiliary variables",
 "Tests look at sample models whose calibrated values are already steady.",
 ["dolo/algos/steady_state.py", "dolo/compiler/model.py"],
 [], [("residual evaluation", "dolo/algos/steady_state.py:residuals"), ("root finding", "dolo/algos/steady_state.py:find_deterministic_equilibrium")],
 ["residuals(model), find_steady_state(model), str(model), model._repr_html_()"])
prop("I01", "Figures show the tables they are drawn from",
 "A figure of simulations has one panel per variable, in the order of the variables, each with its title and one line per simulation, in the order of the simulations and in its own style; a line joins the values of that variable in that simulation at its dates, up to the horizon, and lies within the limits of the panel. More variables than there can be panels are refused. A figure of a decision rule shows, for each control asked for, the rule at the states between the bounds, the other states and the shock being those asked for. The tables are left unchanged.",
 ["inputs", "configurations"], "all numbers of simulations and variables, tables of different lengths and column orders, horizons, layouts, styles, rules, bounds and shocks",
 "No test draws a figure, and a wrong line still looks like a figure.",
 ["dolo/misc/graphs.py", "dolo/algos/simulations.py"], [], [("panels and lines", "dolo/misc/graphs.py:plot_irfs"), ("rule along a state", "dolo/algos/simulations.py:plot_decision_rule")],
 ["plot_irfs(...), plot_decision_rule(...)"])
prop("U01", "Dispatch depends only on what is registered",
 "A function with several implementations runs, on every call, the most specific implementation registered for the classes of its arguments at that moment (ties between incomparable signatures are settled by how near the classes are in the inheritance order, position by position, and an undecided or unmatched call raises DispatchError). The order of registrations, what was removed, the calls made before, and references that could not be resolved yet make no difference; arguments, keywords and results pass through unchanged. Functions which dispatch on predicates run the last registered implementation whose predicates accept the arguments.",
 ["inputs", "histories"], "all class lattices, registration and removal orders, and sequences of calls",
 "No test exercises the dispatcher; the outcome depends on the history of registrations and of cached lookups.",
 ["dolo/misc/multimethod.py"], [], [("links and cache", "dolo/misc/multimethod.py:multimethod.__setitem__"), ("resolution", "dolo/misc/multimethod.py:multimethod.__missing__")],
 ["multimethod(...), multimethod.register(...), overload(...), multimeta"])
prop("H01", "The trend filters solve their defining problems",
 "The Hodrick-Prescott trend of any series of at least four observations is the minimizer of the sum of squared deviations plus lambda times squared second differences, series by series for stacked data; the band-pass filter is linear, removes constants, and loses the announced observations (series shorter than the filter are refused). The shape of the data is preserved, and the data itself is unchanged.",
 ["inputs"], "all series lengths, smoothing parameters and stacks",
 "No test exercises the filters.",
 ["dolo/numeric/filters.py"], [], [("sparse normal equations", "dolo/numeric/filters.py:hp_filter")],
 ["hp_filter(...), bandpass_filter(...)"])
