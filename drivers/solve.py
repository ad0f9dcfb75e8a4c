"""T01: runs of time iteration."""
import sys, os, json, warnings
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa
from sgen import gen_solvable, exo_lines, load, process, rule_of, at_nodes, guesses, economies
from dolo import yaml_import, time_iteration

thorough = os.environ["VERIF_TIER"] == "thorough"


def run_ti(name, sizes, bounds, exo, method, dpk=None):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A = gen_solvable(rng, sizes, bounds, exo_lines(rng, sizes[0], exo))
        model = load(rec, name, A)
        if model is None:
            return
        kw = {}
        o, r = rec.call(lambda: model.discretize())
        if o != "ok":
            rec.event("Run", outcome=o, how="discretize")
            return
        grid, dp = r
        if dpk:
            dp = kw["dprocess"] = model.exogenous.discretize(**dpk)
        endo = grid["endo"]
        nodes, atoms = process(dp)
        R = rule_of(A, dp, method)
        for rep in range(2):
            how, dr0, V0 = guesses(rng, npr, A, model, dp, endo, method)
            ign = rng.random() < 0.25
            maxit = rng.choice([1, 2, 3, 5, 50, 50])
            tol = rng.choice([1e-6, 1e-3, 0.02, 0.1])
            a = dict(maxit=maxit, tol=tol, interp_method=method, verbose=False, **kw)
            if dr0 is not None:
                a["dr0"] = dr0
            elif rng.random() < 0.5:
                a["dr0"] = None
            if ign:
                a["ignore_constraints"] = True
            marks = []
            cal = qa(model.calibration["controls"])
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter("always")
                count = lambda: sum("Did not converge" in str(w.message) for w in W)
                o, r = rec.call(lambda: time_iteration(model, trace=True, hook=lambda: marks.append(count()), **a))
                marks.append(count())
            d = dict(outcome=o, how=[how, exo, method], tol=q(tol), maxit=maxit, ignore=ign, nodes=nodes, atoms=atoms, rule=R)
            if o != "ok":
                rec.event("Run", **d)
                continue
            T = [at_nodes(t["dr"], dp, endo.nodes) for t in r.trace]
            d.update(first=qa(T[0]), start=qa(V0), iterations=int(r.iterations), converged=bool(r.x_converged), err=q(r.err), xtol=q(r.x_tol),
                     complementarities=bool(r.complementarities), traced=len(T), hooked=len(marks) - 1)
            rec.event("Run", **d)
            K, N = T[0].shape[:2]
            last = len(T) - 1
            for k in range(1, len(T)):
                few = 6 if k in (1, last) else (2 if k < 6 else 0)
                pts = [(i, n) for i in range(K) for n in range(N)]
                pts = rng.sample(pts, min(few * (3 if thorough else 1), len(pts)))
                rec.event("Iteration", k=k, V=qa(T[k]), warned=k < len(marks) and marks[k] > marks[k - 1],
                          points=[dict(i=i, n=n, x=qa(T[k][i, n])) for i, n in pts])
            rec.event("End", final=qa(at_nodes(r.dr, dp, endo.nodes)), intact=qa(model.calibration["controls"]) == cal)
            if last <= 10:
                for opts in rng.sample([dict(details=False), dict(verbose=True), dict(verbose="full"), dict(trace=False), dict(hook=None)], 2):
                    o, r2 = rec.call(lambda: time_iteration(model, **{**a, **opts}))
                    v = []
                    if o == "ok":
                        v = qa(at_nodes(r2 if opts.get("details") is False else r2.dr, dp, endo.nodes))
                    rec.event("Same", outcome=o, opts=str(opts), final=v)
    return run


SCALAR = """name: scalar
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [c]
equations:
    arbitrage: |
        c*x[t+1] - x[t]
    transition: |
        s[t] = s[t-1]/2 + e[t]
calibration:
    s: 0
    x: 1
    e: 0
    c: %r
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def replay(k, n):
    def run(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "iterations.json")))
        rec.event("Model", outcome="ok", symbols={}, defs=[], blocks={}, bounds=[], p=[])
        models = {}
        for b in B[k::n]:
            c = float(Fraction(b["c"]))
            if c not in models:
                open("scalar_%d.yaml" % k, "w").write(SCALAR % c)
                models[c] = yaml_import("scalar_%d.yaml" % k, check=False)
            tol = float(Fraction(b["tol"]))
            o, r = rec.call(lambda: time_iteration(models[c], tol=tol, maxit=b["maxit"], verbose=False, interp_method="linear"))
            d = dict(outcome=o, b=b)
            if o == "ok":
                d.update(it=int(r.iterations), conv=bool(r.x_converged), err=q(r.err), x=q(r.dr.eval_s(np.array([[0.3]]))[0, 0]))
            rec.event("Replay", **d)
    return run


Z = [((1, 1, 1), "normal", "linear"), ((1, 1, 2), "chain", "linear"), ((1, 2, 1), "normal", "linear"), ((2, 1, 2), "chain", "linear"),
     ((1, 1, 1), "chain", "cubic"), ((1, 1, 2), "ar1", "cubic"), ((1, 2, 2), "chain", "cubic"), ((2, 1, 1), "normal", "cubic")]
G = [((1, 1, 1), "ar1", "cubic", dict(to="gdp")), ((1, 1, 2), "ar1", "linear", dict(to="gdp")), ((1, 1, 1), "unormal", "linear", dict(to="iid", N=3)), ((2, 1, 1), "var1", "linear", None),
     ((1, 1, 2), "unormal", "cubic", None), ((1, 2, 1), "ar1", "linear", dict(to="mc", N=2)), ((1, 2, 1), "unormal", "linear", None), ((1, 1, 1), "var1", "linear", dict(to="mc", N=2))]
SC = []
for r in range(5 if thorough else 1):
    for j, b in enumerate(["some", "all", "none", "some", "some", "some", "all", "none"]):
        n = "run/%s/%d.%d" % (Z[j][1], j, r)
        SC.append((n, run_ti(n, Z[j][0], b, Z[j][1], Z[j][2])))
    for j, b in enumerate(["some", "some", "none", "all", "some", "some", "some", "all"]):
        n = "process/%s/%d.%d" % (G[j][1], j, r)
        SC.append((n, run_ti(n, G[j][0], b, G[j][1], G[j][2], G[j][3])))
    if r == 0:
        for j in range(8):
            SC.append(("behaviours/%d" % j, replay(j, 8)))
        for j in range(8):
            SC.append(("economies/%d" % j, lambda rec, j=j: economies(rec, j, 8, lambda m: time_iteration(m, tol=1e-7, maxit=60, verbose=False, interp_method="linear"))))
sys.exit(run_scenarios(SC))
