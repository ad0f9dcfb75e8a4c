"""What decides each property: specification modules checked exhaustively
(design), behaviours generated from the specification, and the pairs
(driver, trace specification)."""


def mc(module, cfg, **kw):
    return dict(module=module, cfg=cfg, **kw)


RAT = mc("MC_Rat", "INIT Init\nNEXT Next\nINVARIANT Ok\nCONSTANT N = 4\n")

MCC = """INIT Init
NEXT Next
CONSTANTS
  Views = {"calibration", "domain", "exogenous"}
  Stale = %s
  View <- MCView
  K = %d
  Emit = %s
  Objs = %s
"""
CACHE_OK = mc("MC_ModelCache", MCC % ("{}", 9, "FALSE", '{"a", "b"}') + "INVARIANTS Coherent CacheCoherent\nPROPERTY FrameP\n")
CACHE_BROKEN = mc("MC_ModelCache", MCC % ('{"domain"}', 9, "FALSE", '{"a", "b"}') + "INVARIANT Coherent\n", expect_violation=True)


def histories(k, tier=None):
    return dict(name="histories", module="MC_ModelCache", tier=tier,
                cfg=MCC % ("{}", k, "TRUE", '{"a"}') + "CONSTRAINT Bound\nINVARIANT PrintHistories\n")


MCH = "INIT Init\nNEXT Next\nCONSTANTS\n N = %d\n T = %d\n K = %d\n Raw = %s\n"

MCS = "INIT Init\nNEXT Next\nCONSTANTS\n T = %d\n Dates = \"%s\"\n Emit = %s\n"

MCI = "INIT Init\nNEXT Next\nCONSTANTS\n Fault = \"%s\"\n MaxIt = %d\n Emit = %s\n"

MCE = "INIT Init\nNEXT Next\nCONSTANTS\n N = %d\n Emit = %s\n"
EQUIL = mc("MC_Equilibrium", MCE % (3, "FALSE") + "INVARIANTS SlackIsRight Unique Contracts\n")


def economies(n, tier):
    return dict(name="economies", module="MC_Equilibrium", cfg=MCE % (n, "TRUE") + "INVARIANTS Unique Economies\n", tier=tier)


MCG = "INIT Init\nNEXT Next\nCONSTANTS\n Steps = %d\n Fault = \"%s\"\n Emit = %s\n"
MCD = "INIT Init\nNEXT Next\nCONSTANTS\n Fault = \"%s\"\n K = %d\n Emit = %s\n Deep = %s\n"
MCF = "INIT Init\nNEXT Next\nCONSTANTS\n Fault = \"%s\"\n Emit = %s\n"
MCM = "INIT Init\nNEXT Next\nCONSTANTS\n Fault = \"%s\"\n K = %d\n Emit = %s\n"

NOTE = ("Trace validation against an explicit TLA+ specification: TLC recomputes, in exact arithmetic, what every recorded public call must return. "
        "Sound for what was executed (seeded scenarios), not a proof for all inputs; "
        "trusts the recorder, the BigInteger arithmetic override (itself checked by TLC on small fractions) and TLC.")

CHECKS = {
    "M01": dict(
        traces=[("model_objects.py", "Trace_Model")],
        design=[RAT, CACHE_OK, CACHE_BROKEN],
        behaviours=[histories(4, "quick"), histories(5, "thorough")],
        expect_clauses=["calibration-value", "domain-value", "exogenous-value", "residuals-value",
                        "function-value-at-calibration", "grid-spans-the-domain", "set-calibration-accepts"],
    ),
    "M02": dict(
        traces=[("model_objects.py", "Trace_Model")],
        design=[RAT],
        expect_clauses=["calibration-value", "grouped-arrays-are-read-only", "grouped-view-agrees",
                        "unsolvable-calibration-is-refused", "solvable-model-is-accepted", "groups-in-declaration-order"],
    ),
    "M03": dict(
        traces=[("functions.py", "Trace_Functions")],
        design=[RAT],
        expect_clauses=["accepts-well-formed-model", "arbitrage-value", "transition-value", "auxiliary-value",
                        "arbitrage_lb-value", "arbitrage_ub-value", "value-value", "felicity-value",
                        "expectation-value", "direct_response-value", "half_transition-value",
                        "reverse_state-value", "direct_response_egm-value", "stack-is-pointwise", "derivative"],
    ),
    "G01": dict(
        traces=[("grids.py", "Trace_Grid")],
        design=[RAT, mc("MC_Grid", "INIT Init\nNEXT Next\nCONSTANTS D = 3\n S = 4\nINVARIANTS Bijection LastFastest Listed Regular\n")],
        expect_clauses=["uniform-nodes", "product-nodes", "unstructured-nodes", "smolyak-count", "mismatched-bounds-are-refused", "enumeration-of-a-product"],
    ),
    "P01": dict(
        traces=[("processes.py", "Trace_Process")],
        design=[RAT, mc("MC_Process", "INIT Init\nNEXT Next\nINVARIANTS Rouwenhorst Products Mixtures\n")],
        expect_clauses=["rows-are-probability-laws", "gaussian-moments", "equiprobable-quantiles", "ar-conditional-mean",
                        "ar-conditional-covariance", "product-law", "mixture-law", "constant-law", "bernouilli-law", "finite-law",
                        "chain-is-itself", "rouwenhorst-transitions", "tauchen-transitions", "var-transitions",
                        "unsupported-request-is-refused", "integral-is-the-expectation"],
    ),
    "P02": dict(
        traces=[("paths.py", "Trace_Chain")],
        design=[RAT, mc("MC_Chain", MCH % (2, 4, 8, "FALSE") + "INVARIANTS InStates Legal Starts Measure Sums\n"),
                mc("MC_Chain", MCH % (3, 3, 12, "FALSE") + "INVARIANTS InStates Legal Starts Measure\n"),
                mc("MC_Chain", MCH % (3, 2, 1000, "TRUE") + "INVARIANTS InStates\n", expect_violation=True)],
        expect_clauses=["steps-have-positive-probability", "path-frequencies-are-path-probabilities", "deterministic-chain-stays",
                        "innovations-have-the-declared-covariance", "deterministic-recursion", "response-follows-the-recursion",
                        "draws-have-the-declared-distribution", "draws-have-the-declared-moments", "product-of-independent-simulations"],
    ),
    "D01": dict(
        traces=[("rules.py", "Trace_Interp")],
        design=[RAT, mc("MC_Interp", "INIT Init\nNEXT Next\nCONSTANTS MaxN = 4\n K = 5\nINVARIANT Ok\n")],
        expect_clauses=["linear-interpolant", "cubic-interpolant", "values-at-the-nodes", "taylor-rule", "bitaylor-rule",
                        "custom-rule", "constant-rule", "result-has-the-shape-of-the-arguments", "values-are-accepted",
                        "unsupported-request-is-refused"],
    ),
    "S01": dict(
        traces=[("sims.py", "Trace_Simulation")],
        design=[RAT, mc("MC_Simulation", MCS % (5, "right", "FALSE") + "INVARIANT Law\n"),
                mc("MC_Simulation", MCS % (3, "late", "FALSE") + "INVARIANT Law\n", expect_violation=True),
                mc("MC_Simulation", MCS % (3, "early", "FALSE") + "INVARIANT Law\n", expect_violation=True),
                mc("MC_Simulation", MCS % (3, "control", "FALSE") + "INVARIANT Law\n", expect_violation=True)],
        behaviours=[dict(name="paths", module="MC_Simulation", cfg=MCS % (4, "right", "TRUE") + "INVARIANT Paths\n", tier="quick"),
                    dict(name="paths", module="MC_Simulation", cfg=MCS % (6, "right", "TRUE") + "INVARIANT Paths\n", tier="thorough")],
        expect_clauses=["states-follow-the-transition", "controls-follow-the-rule", "auxiliaries-are-those-of-the-date", "shocks-follow-their-law",
                        "columns-are-labelled-in-order", "same-seed-same-paths", "tabulated-controls-follow-the-rule", "paths-of-the-specification-are-simulated"],
    ),
    "T01": dict(
        traces=[("solve.py", "Trace_TimeIteration")],
        design=[RAT, EQUIL, mc("MC_Iterate", MCI % ("none", 9, "FALSE") + "INVARIANTS Ok Steps\n")] +
               [mc("MC_Iterate", MCI % (f, 5, "FALSE") + "INVARIANT Ok\n", expect_violation=True) for f in ("late", "claims", "over")],
        behaviours=[dict(name="iterations", module="MC_Iterate", cfg=MCI % ("none", 5, "TRUE") + "INVARIANT Runs\n", tier="quick"),
                    dict(name="iterations", module="MC_Iterate", cfg=MCI % ("none", 12, "TRUE") + "INVARIANT Runs\n", tier="thorough"),
                    economies(2, "quick"), economies(3, "thorough")],
        expect_clauses=["steps-solve-the-optimality-conditions", "starts-from-the-given-rule", "stops-at-the-first-small-change", "convergence-is-truthful",
                        "behaviours-of-the-specification-are-followed", "economies-of-the-specification-are-solved", "options-of-display-change-nothing"],
    ),
    "T02": dict(
        traces=[("improve.py", "Trace_Improved")],
        design=[RAT, EQUIL], behaviours=[economies(2, "quick"), economies(3, "thorough")],
        expect_clauses=["fixed-point-solves-the-optimality-conditions", "controls-respect-their-bounds", "convergence-is-truthful", "never-exceeds-the-limit", "economies-of-the-specification-are-solved"],
    ),
    "T03": dict(
        traces=[("egm.py", "Trace_Egm")],
        design=[RAT, mc("MC_Egm", MCG % (4, "none", "FALSE") + "INVARIANTS Linear Euler Increasing\n")] +
               [mc("MC_Egm", MCG % (2, f, "FALSE") + "INVARIANTS Linear Euler\n", expect_violation=True) for f in ("transposed", "forgets")],
        behaviours=[dict(name="savings", module="MC_Egm", cfg=MCG % (3, "none", "TRUE") + "INVARIANTS Linear Saved\n", tier="quick"),
                    dict(name="savings", module="MC_Egm", cfg=MCG % (8, "none", "TRUE") + "INVARIANTS Linear Saved\n", tier="thorough")],
        expect_clauses=["rule-is-that-of-the-endogenous-gridpoints", "convergence-is-truthful", "stops-at-the-first-small-change", "reports-the-change", "never-exceeds-the-limit",
                        "contractions-are-solved", "arguments-are-left-unchanged", "unsupported-request-is-refused", "rules-of-the-specification-are-found"],
    ),
    "V01": dict(
        traces=[("values.py", "Trace_Value")],
        design=[RAT, EQUIL, mc("MC_Value", "SPECIFICATION Spec\nCONSTANT Emit = FALSE\nINVARIANTS Bellman Discounted Fast Stuck\nPROPERTY Improves\n")],
        behaviours=[dict(name="chains", module="MC_Value", cfg="SPECIFICATION Spec\nCONSTANT Emit = TRUE\nINVARIANTS Bellman Chains\n")],
        expect_clauses=["value-equation-holds-within-the-reported-error", "policy-at-the-nodes", "no-feasible-alternative-is-better", "value-is-that-of-the-choice",
                        "value-is-that-of-the-policy", "choices-respect-their-bounds", "values-of-the-specification-are-found"],
    ),
    "X01": dict(
        traces=[("perturb.py", "Trace_Perturbation")],
        design=[RAT, mc("MC_Linear", "INIT Init\nNEXT Next\nINVARIANT Ok\n"), mc("MC_Perturbation", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Theory Selection\n")],
        behaviours=[dict(name="systems", module="MC_Perturbation", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANTS Theory Systems\n")],
        expect_clauses=["rule-solves-the-linearized-model", "stability-is-reported", "uniqueness-is-reported", "several-or-no-stable-solutions-are-announced",
                        "smallest-roots-are-selected", "roots-are-classified", "undefined-solution-is-refused", "passes-through-the-steady-state",
                        "unsupported-shocks-are-refused", "systems-of-the-specification-are-solved", "options-of-display-change-nothing"],
    ),
    "K01": dict(
        traces=[("steady.py", "Trace_SteadyState")],
        design=[RAT, mc("MC_SteadyState", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Classified Meant\n")],
        behaviours=[dict(name="models", module="MC_SteadyState", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Models\n")],
        expect_clauses=["residuals-of-the-transitions", "residuals-of-the-optimality-conditions", "residuals-vanish", "shocks-are-those-asked", "nothing-else-is-changed",
                        "linear-steady-state-is-found", "absence-of-a-steady-state-is-reported", "models-of-the-specification-are-solved"],
    ),
    "N01": dict(
        traces=[("ncp.py", "Trace_NCP")],
        design=[RAT, mc("MC_Linear", "INIT Init\nNEXT Next\nINVARIANT Ok\n"), mc("MC_NCP", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Existence Without\n")],
        behaviours=[dict(name="problems", module="MC_NCP", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Problems\n")],
        expect_clauses=["claimed-solutions-are-solutions", "solutions-are-claimed", "iteration-limit-is-respected", "each-problem-gets-its-own-solution",
                        "problems-of-the-specification-are-solved", "numerical-jacobian", "arguments-are-left-unchanged", "well-posed-problems-are-solved"],
    ),
    "L01": dict(
        traces=[("batch.py", "Trace_Batch")],
        design=[RAT, mc("MC_Linear", "INIT Init\nNEXT Next\nINVARIANT Ok\n"), mc("MC_Tensor", "INIT Init\nNEXT Next\nINVARIANT Ok\n")],
        expect_clauses=["each-point-is-solved", "each-point-is-multiplied", "singular-point-is-reported", "multilinear-composition", "sylvester-equation-is-solved",
                        "quadratic-equation-is-solved", "stable-solution-is-selected", "generalized-schur-decomposition", "big-eigenvalues-come-first",
                        "each-point-is-differentiated", "arguments-are-left-unchanged"],
    ),
    "E01": dict(
        traces=[("ergodic.py", "Trace_Ergodic")],
        design=[RAT, mc("MC_Ergodic", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Keeps Unique Product\n")],
        behaviours=[dict(name="laws", module="MC_Ergodic", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Laws\n")],
        expect_clauses=["rows-are-probability-laws", "rows-follow-the-model-and-its-rule", "law-is-labelled-by-the-grid", "law-is-a-probability-law", "law-is-invariant",
                        "unsupported-request-is-refused", "chains-of-the-specification-are-built", "laws-of-the-specification-are-found"],
    ),
    "F01": dict(
        traces=[("foresight.py", "Trace_Foresight")],
        design=[RAT, mc("MC_Foresight", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Exists Rests Meets\n")],
        behaviours=[dict(name="foresights", module="MC_Foresight", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Paths\n")],
        expect_clauses=["columns-and-dates", "shocks-are-those-asked", "starts-in-the-initial-state", "states-follow-the-transition", "controls-are-optimal",
                        "controls-respect-their-bounds", "nothing-changes-at-the-end", "auxiliaries-are-those-of-the-date", "kept-steady-state",
                        "varying-bounds-are-refused", "same-path-as-before", "paths-of-the-specification-are-found", "well-posed-problems-are-solved"],
    ),
    "Q01": dict(
        traces=[("formula.py", "Trace_Formula")],
        design=[RAT, mc("MC_Formula", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Missing Shifted Described\n")],
        behaviours=[dict(name="formulas", module="MC_Formula", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Formulas1\n")],
        expect_clauses=["undefined-names-are-refused", "each-row-is-the-formula-at-that-date", "one-value-per-row", "undated-formulas-are-constants",
                        "arguments-are-left-unchanged", "formulas-of-the-specification-are-evaluated"],
    ),
    "C01": dict(
        traces=[("memo.py", "Trace_Memo")],
        design=[mc("MC_Memo", MCM % ("none", 7, "FALSE") + "VIEW View1\nINVARIANTS Right Once Refines\n")] +
               [mc("MC_Memo", MCM % (f, 4, "FALSE") + "VIEW View1\nINVARIANTS Right Once\n", expect_violation=True) for f in ("collide", "name", "partial")],
        behaviours=[dict(name="memos", module="MC_Memo", cfg=MCM % ("none", 3, "TRUE") + "VIEW View1\nINVARIANTS Right Histories\n", tier="quick"),
                    dict(name="memos", module="MC_Memo", cfg=MCM % ("none", 4, "TRUE") + "VIEW View1\nINVARIANTS Right Histories\n", tier="thorough")],
        expect_clauses=["result-is-that-of-the-function", "kept-results-are-not-computed-again", "evaluated-once", "errors-of-the-function-reach-the-caller",
                        "calls-complete", "crash-happened-while-saving", "values-are-stored", "stored-values-are-found", "clearing-completes"],
    ),
    "U01": dict(
        traces=[("dispatch.py", "Trace_Dispatch")],
        design=[mc("MC_Dispatch", MCD % ("none", 4, "FALSE", "TRUE") + "VIEW View1\nINVARIANTS Right Sensible Total\n"),
                mc("MC_Dispatch", MCD % ("none", 4, "FALSE", "FALSE") + "VIEW View1\nINVARIANTS Right Sensible Total\n")] +
               [mc("MC_Dispatch", MCD % (f, 4, "FALSE", d) + "VIEW View1\nINVARIANTS Right\n", expect_violation=True)
                for f, d in (("linked", "FALSE"), ("keeps", "FALSE"), ("first", "TRUE"), ("unlinks", "TRUE"))],
        behaviours=[dict(name="dispatches", module="MC_Dispatch", cfg=MCD % ("none", 3, "TRUE", "FALSE") + "VIEW View1\nINVARIANTS Right Histories\n", tier="quick"),
                    dict(name="dispatches", module="MC_Dispatch", cfg=MCD % ("none", 4, "TRUE", "FALSE") + "VIEW View1\nINVARIANTS Right Histories\n", tier="thorough")],
        expect_clauses=["most-specific-implementation-runs", "last-accepting-implementation-runs", "undecided-calls-are-refused", "calls-are-dispatched",
                        "arguments-reach-the-implementation", "implementations-are-registered", "implementations-are-removed",
                        "what-is-not-registered-is-not-removed", "registering-returns-the-definition"],
    ),
    "I01": dict(
        traces=[("figures.py", "Trace_Figure")],
        design=[RAT, mc("MC_Figure", MCF % ("none", "FALSE") + "INVARIANTS Drawn Goes Room\n")] +
               [mc("MC_Figure", MCF % (f, "FALSE") + "INVARIANTS Drawn Goes\n", expect_violation=True) for f in ("options", "horizon", "order")],
        behaviours=[dict(name="figures", module="MC_Figure", cfg=MCF % ("none", "TRUE") + "INVARIANT Figures\n")],
        expect_clauses=["figures-are-drawn", "one-panel-per-variable", "panels-are-titled", "one-line-per-simulation", "lines-are-the-simulated-values", "lines-are-visible",
                        "lines-have-the-style-of-their-simulation", "panels-are-laid-out-as-asked", "too-many-variables-are-refused", "one-line-per-control",
                        "lines-are-the-decision-rule", "lines-are-labelled", "arguments-are-left-unchanged"],
    ),
    "H01": dict(
        traces=[("filters.py", "Trace_Filters")],
        design=[RAT, mc("MC_Filters", "INIT Init\nNEXT Next\nCONSTANTS\n N = 5\n Emit = FALSE\nINVARIANTS Optimal Flat1 Line Ignores\n")],
        behaviours=[dict(name="trends", module="MC_Filters", cfg="INIT Init\nNEXT Next\nCONSTANTS\n N = 5\n Emit = TRUE\nINVARIANT Trends\n", tier="quick"),
                    dict(name="trends", module="MC_Filters", cfg="INIT Init\nNEXT Next\nCONSTANTS\n N = 7\n Emit = TRUE\nINVARIANT Trends\n", tier="thorough")],
        expect_clauses=["trend-solves-the-minimization", "trend-is-the-minimizer", "trend-and-cycle-add-up", "one-trend-and-one-cycle-per-series", "unsupported-request-is-refused",
                        "weighted-moving-average", "observations-lost-at-the-ends", "too-short-series-are-refused", "trends-of-the-specification-are-found"],
    ),
    "M04": dict(
        traces=[("wellformed.py", "Trace_WellFormed")],
        design=[mc("MC_WellFormed", "INIT Init\nNEXT Next\nCONSTANT Emit = FALSE\nINVARIANTS Base Single Faulty\n")],
        behaviours=[dict(name="files", module="MC_WellFormed", cfg="INIT Init\nNEXT Next\nCONSTANT Emit = TRUE\nINVARIANT Files\n")],
        expect_clauses=["well-formed-models-are-accepted", "ill-formed-models-are-refused", "files-of-the-specification", "refusals-leave-no-trace"],
    ),
}

for _c in CHECKS.values():
    _c.setdefault("level_note", NOTE)
