"""Writes /verif/properties.jsonl (one source for ids, statements and anchors)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("M01", "A model always answers from its current data",
 "After any sequence of calibration changes and reads, everything a model object reports (calibration, domain, exogenous process, residuals, compiled-function values at the calibration, grid) equals what a model freshly imported from a file carrying the same values would report. Changing parameters by keyword, by dictionary, by number or by expression string are equivalent, and no change made to one model object alters another.",
 ["histories", "programs"], "all sequences of set_calibration calls (numbers, expression strings, several keys, dict or keyword form) interleaved with reads of every cached view, on every model",
 "Tests import a model, maybe set one parameter once and read once; staleness only shows after particular read/write/read orders.",
 ["dolo/compiler/model.py", "dolo/compiler/model_import.py"],
 [("calibration/domain/exogenous caches", "lazily computed views derived from the symbolic data", "dolo/compiler/model.py:Model"), ("symbolic data", "the yaml tree that set_calibration edits", "dolo/compiler/model.py:SymbolicModel")],
 [("set_calibration edits the data and drops cached views", "dolo/compiler/model.py:Model.set_calibration"), ("lazy properties", "dolo/compiler/model.py:Model.calibration")],
 ["return values of model.calibration, model.domain, model.exogenous, model.residuals(), model.get_grid(), model.functions[...]"])

prop("M02", "Calibration is the solution of the calibration equations",
 "The calibration of a model gives every declared symbol the value of its calibration (or definition) expression evaluated at the other calibrated values, whatever order the entries are written in; symbols without an entry get 0 if they are exogenous and nan otherwise. The flat and the grouped views agree symbol by symbol in declaration order, the grouped arrays are read-only, and a circular system is refused.",
 ["inputs", "programs"], "all acyclic and cyclic dependency graphs among calibration entries, parameters, definitions and steady-state values, in all textual orders",
 "The sample models have one order and one dependency graph each; tests only check that calibration exists.",
 ["dolo/compiler/model.py", "dolo/compiler/misc.py"],
 [("calibration dictionary", "symbol -> expression", "dolo/compiler/model.py:SymbolicModel.get_calibration")],
 [("triangular solution of the calibration system", "dolo/compiler/model.py:SymbolicModel.get_calibration"), ("flat/grouped container", "dolo/compiler/misc.py:CalibrationDict")],
 ["model.calibration.flat, model.calibration[group], model.calibration[symbol]"])

prop("M03", "Compiled functions compute exactly the written equations",
 "For every equation block of a model file, the compiled function returns, for each equation `lhs = rhs`, the value of the written formula (right-hand side for definition-type blocks, rhs - lhs for residual-type blocks) with every symbol read from the argument that carries its group and its date, definitions substituted at the right date, and complementarity bounds returned in the order of the controls (unbounded when none is written). Called on stacks of points it returns the stack of pointwise results, and the derivatives it reports are the derivatives of those formulas.",
 ["programs", "inputs"], "all model files (any symbols, dates, definitions, arithmetic/transcendental formulas, complementarity conditions), all evaluation points and broadcastable stacks of points",
 "Tests compile the sample models and check shapes; one transposed argument or shifted date gives wrong numbers with the right shape.",
 ["dolo/compiler/model.py", "dolo/compiler/factories.py", "dolo/compiler/recipes.yaml"],
 [("function arguments", "(group, date) per positional argument", "dolo/compiler/recipes.yaml")],
 [("recipe-driven compilation", "dolo/compiler/factories.py:get_factory"), ("function dictionary", "dolo/compiler/model.py:Model.functions"), ("arbitrage bounds", "dolo/compiler/model.py")],
 ["model.functions[name](...), with and without diff=True; model.x_bounds-like functions; model.residuals()"])

prop("M04", "Ill-formed models are refused, well-formed models are accepted",
 "Importing a model file succeeds when it is well formed: the groups of symbols its blocks need are present; every symbol is declared once; every equation block uses only the symbols, at the dates, its block allows; blocks which define symbols define those of their group at their date, in declaration order, with one equation each, and there is one optimality equation per control; complementarity conditions name the control of the same position at date t; definitions define new symbols at date t from parameters, shocks, states, controls and earlier definitions; the calibration system is closed and acyclic; a domain, when there is one, covers every state; and exogenous processes are declared for the shocks, in their declared order, with as many dimensions. Importing the file and reading what it declares raises an error when one of these conditions is violated. A rejected file does not affect later imports. (Absent sections, reversed domains and superfluous names are not judged.)",
 ["programs", "fault_sequences"], "all well-formed models and all single-fault mutations of them",
 "Tests load good sample files and two or three hand-written bad ones.",
 ["dolo/compiler/model.py", "dolo/compiler/model_import.py", "dolo/compiler/factories.py"],
 [], [("recipe checks at compilation", "dolo/compiler/factories.py:get_factory"), ("import checks", "dolo/compiler/model_import.py")],
 ["yaml_import return value or exception"])

prop("G01", "Grids list exactly their declared points, in one consistent order",
 "A grid of any kind has as many nodes as it announces; node i, the i-th row of the node array, and the coordinates obtained from the per-dimension subdivisions with the last dimension varying fastest are the same point, equally spaced between the bounds where the grid is regular. The sum or product of Cartesian grids is the Cartesian grid with the dimensions of both, in order, keeping each factor's bounds and sizes; a model's grid spans its domain with the requested numbers of points. Grids whose bounds and sizes do not match are refused.",
 ["inputs", "configurations"], "all bounds, sizes (including 1 point and unequal sizes), dimensions and combinations of grids",
 "Tests build one or two grids and check shapes.",
 ["dolo/numeric/grids.py", "dolo/numeric/misc.py", "dolo/compiler/objects.py", "dolo/compiler/model.py"],
 [("nodes", "N x d array of grid points", "dolo/numeric/grids.py")],
 [("cartesian enumeration", "dolo/numeric/misc.py:cartesian / mlinspace"), ("grid classes", "dolo/numeric/grids.py")],
 ["grid.n_nodes, grid.nodes, grid.node(i), grid.min/max/n, cat_grids, model.get_grid()"])

prop("P01", "Discretized shocks are the declared probability law",
 "Every discretization of an exogenous process is a probability law: nonnegative weights and transition probabilities, each row summing to one, indexed consistently with the nodes it reports. It has the moments its method promises (Gauss-Hermite: mean, covariance and higher moments; equiprobable: quantiles; Rouwenhorst: mean, variance and autocorrelation; Tauchen: the normal probabilities of its cells), and products and mixtures of processes are discretized into the product or mixture of their discretized components. A request the process does not support is refused rather than answered with another law.",
 ["inputs", "configurations"], "all parameter values, dimensions, node counts and discretization methods, and all products and mixtures of processes",
 "Tests discretize a few processes with fixed parameters and mostly check shapes.",
 ["dolo/numeric/processes.py", "dolo/numeric/distribution.py", "dolo/numeric/discretization/discretization.py", "dolo/numeric/discretization/quadrature.py"],
 [("nodes, integration nodes, weights", "discrete law", "dolo/numeric/processes.py:DiscretizedProcess")],
 [("quadrature and Markov-chain approximations", "dolo/numeric/discretization"), ("product laws", "dolo/numeric/processes.py, dolo/numeric/discretization/discretization.py:tensor_markov")],
 ["process.discretize(to=...), and n_nodes/node/n_inodes/inode/iweight of the result"])

json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops2.py")).read())
with open(json_path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
