"""V01: policy evaluation and value function iteration."""
import sys, os, json
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa
from sgen import gen_solvable, exo_lines, load, process, rule_of, at_nodes
from mgen import show, num, par, var, rand_expr
from dolo import yaml_import
from dolo.algos.value_iteration import evaluate_policy, value_iteration, constant_policy
from dolo.algos.results import TimeIterationResult
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CustomDR
from dolo.algos.perturbation import BivariateTaylor

thorough = os.environ["VERIF_TIER"] == "thorough"


def policy(rng, npr, A, model, dp, endo, method):
    """(kind, rule for the code, description, values)"""
    sym = A["symbols"]
    nm, ns, nx = (len(sym[g]) for g in ("exogenous", "states", "controls"))
    K, N = max(dp.n_nodes, 1), len(endo.nodes)
    B = lambda *sh: npr.integers(-4, 4, sh) / 16
    kind = rng.choice(["grid", "grid", "array", "result", "constant", "default", "bitaylor", "custom"])
    if kind in ("constant", "default"):
        x0 = B(nx) if kind == "constant" else np.array(model.calibration["controls"])
        return kind, ConstantDecisionRule(x0) if kind == "constant" else constant_policy(model), dict(kind="constant", x0=qa(x0)), []
    if kind == "bitaylor":
        mb, sb, xb, Cm, Cs = B(nm), B(ns), B(nx), B(nx, nm), B(nx, ns)
        return kind, BivariateTaylor(mb, sb, xb, Cm, Cs), dict(kind="bitaylor", mbar=qa(mb), sbar=qa(sb), xbar=qa(xb), Cm=qa(Cm), Cs=qa(Cs)), []
    if kind == "custom":
        lv = [var(v) for g in ("exogenous", "states") for v in sym[g]] + [par(p) for p in sym["parameters"]]
        ex = [["div", e, ["add", num(1), ["mul", e, e]]] for e in (rand_expr(rng, lv, 1) for _ in sym["controls"])]
        dr = CustomDR({c: show(e, None, True).replace("[t]", "") for c, e in zip(sym["controls"], ex)}, model)
        return kind, dr, dict(kind="custom", M=dict(symbols=sym, defs=[], blocks={"transition": []}, bounds=[dict(lb=e, ub=e) for e in ex]), p=qa(model.calibration["parameters"])), []
    V = npr.integers(-6, 10, (K, N, nx)) / 16
    R = rule_of(A, dp, method)
    if kind == "array":
        return kind, V.copy(), R, V
    other = method if rng.random() < 0.5 else "linear"
    R["method"] = other
    dr = DecisionRule(dp.grid, endo, dprocess=dp, interp_method=other, values=V)
    if kind == "result":
        dr = TimeIterationResult(dr, 0, False, dp, False, 0.0, 0.0, None, None)
    return kind, dr, R, V


def pick(rng, K, N, k):
    pts = [(i, n) for i in range(K) for n in range(N)]
    return rng.sample(pts, min(k * (4 if thorough else 1), len(pts)))


def run_policy(name, sizes, exo, method, nv):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A = gen_solvable(rng, sizes, "none", exo_lines(rng, sizes[0], exo), values=nv)
        model = load(rec, name, A)
        if model is None:
            return
        grid, dp = model.discretize()
        endo = grid["endo"]
        nodes, atoms = process(dp)
        Rv = rule_of(A, dp, method)
        for rep in range(5):
            kind, mdr, Rx, X = policy(rng, npr, A, model, dp, endo, method)
            tol = rng.choice([1e-8, 1e-8, 1e-5, 1e-2])
            maxit = rng.choice([1, 3, 2000, 2000])
            kw = dict(tol=tol, maxit=maxit, verbose=False, details=True, interp_method=method)
            if kw["tol"] == 1e-8 and rng.random() < 0.5:
                kw.pop("tol")
            K, N = max(dp.n_nodes, 1), len(endo.nodes)
            if rng.random() < 0.4:
                kw["dr0"] = DecisionRule(dp.grid, endo, dprocess=dp, interp_method=method, values=npr.integers(-8, 8, (K, N, nv)) / 4)
            if "dr0" in kw:
                guess = at_nodes(kw["dr0"], dp, endo.nodes)
            keep = [np.array(X), np.array(mdr) if kind == "array" else None]
            o, r = rec.call(lambda: evaluate_policy(model, mdr, **kw))
            d = dict(outcome=o, how=[kind, exo, method], tol=q(tol), maxit=maxit, nodes=nodes, atoms=atoms, vrule=Rv, xrule=Rx, X=qa(X))
            if o == "ok":
                V = at_nodes(r.solution, dp, endo.nodes)
                z = mdr.dr if kind == "result" else mdr
                ctrl = lambda i: X[i] if kind == "array" else (z.eval_is(i, endo.nodes) if hasattr(z, "eval_is") else z(np.asarray(dp.node(i)), endo.nodes))
                P = [dict(i=i, n=n, x=qa(np.asarray(ctrl(i))[n])) for i, n in pick(rng, K, N, 5)]
                d.update(V=qa(V), err=q(r.error), rtol=q(r.tol), iterations=int(r.iterations), points=P,
                         guess=bool("dr0" not in kw or np.array_equal(guess, at_nodes(kw["dr0"], dp, endo.nodes))),
                         intact=np.array_equal(keep[0], np.array(X)) and (kind != "array" or np.array_equal(mdr, keep[1])))
            rec.event("Policy", **d)
            if o == "ok" and rep < 2:   # the same evaluation, reported differently
                opt = rng.choice([dict(verbose=True), dict(verbose="full"), dict(details=False), dict(details=False, verbose=True)])
                o2, r2 = rec.call(lambda: evaluate_policy(model, mdr, **{**kw, **opt}))
                bare = not opt.get("details", True)
                rec.event("Same", outcome=o2, how=[kind, str(opt)], V=d["V"], V2=qa(at_nodes(r2 if bare else r2.solution, dp, endo.nodes)) if o2 == "ok" else [], X=[], X2=[])
    return run


def run_best(name, sizes, exo, bounds):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A = gen_solvable(rng, sizes, bounds, exo_lines(rng, sizes[0], exo), choice=True)
        model = load(rec, name, A)
        if model is None:
            return
        grid, dp = model.discretize()
        endo = grid["endo"]
        nodes, atoms = process(dp)
        Rv = rule_of(A, dp, "cubic")
        nx = sizes[2]
        first = evaluate_policy(model, constant_policy(model), verbose=False)
        first = at_nodes(first, dp, endo.nodes)
        for maxit in (1, rng.choice([2, 3]), 60):
            tol = rng.choice([1e-6, 1e-4])
            o, r = rec.call(lambda: value_iteration(model, maxit=maxit, tol=tol, verbose=False))
            d = dict(outcome=o, how=[exo, bounds], tol=q(tol), maxit=maxit, nodes=nodes, atoms=atoms, vrule=Rv, xrule=Rv, beta=q(model.calibration["beta"]))
            if o == "ok":
                X, V = at_nodes(r.dr, dp, endo.nodes), at_nodes(r.drv, dp, endo.nodes)
                K, N = X.shape[:2]
                P = []
                for i, n in pick(rng, K, N, 4):
                    alt = [[q(rng.choice([0.0, 1.0, 0.5, rng.random()])) for _ in range(nx)] for _ in range(4)]
                    P.append(dict(i=i, n=n, x=qa(X[i, n]), alt=alt))
                d.update(X=qa(X), V=qa(V), xconv=bool(r.x_converged), xerr=q(r.x_err), xtol=q(r.x_tol), vconv=bool(r.v_converged), verr=q(r.v_err), vtol=q(r.v_tol),
                         iterations=int(r.iterations), points=P, first=qa(first) if maxit == 1 else [])
            rec.event("Best", **d)
            if o == "ok" and 1 < maxit < 60:
                opt = rng.choice([dict(verbose=True), dict(details=False)])
                o2, r2 = rec.call(lambda: value_iteration(model, maxit=maxit, tol=tol, **opt))
                x2, v2 = (None, None) if o2 != "ok" else (r2 if "details" in opt else (r2.dr, r2.drv))
                rec.event("Same", outcome=o2, how=["best", str(opt)], V=d["V"], X=d["X"], V2=qa(at_nodes(v2, dp, endo.nodes)) if o2 == "ok" else [], X2=qa(at_nodes(x2, dp, endo.nodes)) if o2 == "ok" else [])
    return run


CHAIN = """name: chain
symbols:
    exogenous: [r]
    states: [s]
    controls: [x]
    values: [v]
    parameters: [beta, r1, r2, q1, q2]
equations:
    arbitrage: |
        x[t+1] - x[t]
    transition: |
        s[t] = s[t-1]/2 + x[t-1]
    value: |
        v[t] = r[t] + beta*v[t+1]
calibration:
    s: 0
    x: 0
    r: 0
    v: 0
    beta: 0.5
    r1: 0
    r2: 1
    q1: 0.5
    q2: 0.5
exogenous: !MarkovChain
    values: [[r1], [r2]]
    transitions: [[q1, 1-q1], [q2, 1-q2]]
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def chains(k, n):
    def run(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "chains.json")))
        f = lambda z: float(Fraction(z))
        open("chain_%d.yaml" % k, "w").write(CHAIN)
        m = yaml_import("chain_%d.yaml" % k, check=False)
        for b in B[k::n]:
            m.set_calibration(beta=f(b["b"]), r1=f(b["r"][0]), r2=f(b["r"][1]), q1=f(b["q"][0]), q2=f(b["q"][1]))
            o, r = rec.call(lambda: evaluate_policy(m, constant_policy(m), verbose=False, interp_method="linear"))
            rec.event("Chain", outcome=o, b=b, v=[q(r.eval_is(i, np.array([[0.3]]))[0, 0]) for i in (0, 1)] if o == "ok" else [])
    return run


Z = [((1, 1, 1), "normal", "linear", 1), ((1, 1, 2), "chain", "linear", 2), ((1, 2, 1), "normal", "linear", 1), ((2, 1, 2), "chain", "cubic", 1),
     ((1, 1, 1), "chain", "cubic", 2), ((1, 1, 2), "ar1", "cubic", 1), ((1, 2, 2), "chain", "cubic", 1), ((2, 1, 1), "normal", "cubic", 1)]
W = [((1, 1, 1), "normal", "all"), ((1, 1, 2), "chain", "all"), ((1, 1, 1), "normal", "none"), ((2, 1, 1), "chain", "some"),
     ((1, 1, 1), "chain", "all"), ((1, 1, 2), "ar1", "some"), ((1, 1, 1), "chain", "none"), ((2, 1, 1), "normal", "all")]
SC = []
for r in range(4 if thorough else 1):
    for j in range(8):
        n = "policy/%s/%d.%d" % (Z[j][1], j, r)
        SC.append((n, run_policy(n, *Z[j])))
    for j in range(8):
        n = "best/%s/%d.%d" % (W[j][1], j, r)
        SC.append((n, run_best(n, *W[j])))
for j in range(8):
    SC.append(("chains/%d" % j, chains(j, 8)))
sys.exit(run_scenarios(SC))
