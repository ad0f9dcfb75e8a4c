"""T02: runs of improved time iteration."""
import sys, os, warnings
import numpy as np
from rec import run_scenarios, q, qa
from sgen import gen_solvable, exo_lines, load, process, rule_of, at_nodes, guesses, economies
from dolo import improved_time_iteration

thorough = os.environ["VERIF_TIER"] == "thorough"


def run_iti(name, sizes, bounds, exo, method, dpk=None):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(2):
            A = gen_solvable(rng, sizes, bounds, exo_lines(rng, sizes[0], exo))
            model = load(rec, name, A)
            if model is None:
                return
            grid, dp = model.discretize()
            kw = {}
            if dpk:
                dp = kw["dprocess"] = model.exogenous.discretize(**dpk)
            endo = grid["endo"]
            nodes, atoms = process(dp)
            R = rule_of(A, dp, method)
            for rep in range(4 if thorough else 3):
                how, dr0, V0 = guesses(rng, npr, A, model, dp, endo, method)
                ign = rng.random() < 0.25
                maxit = rng.choice([1, 2, 4, 60, 60])
                tol = rng.choice([1e-8, 1e-8, 1e-6, 1e-3])
                a = dict(maxit=maxit, tol=tol, interp_method=method, verbose=False, **kw)
                if dr0 is not None:
                    a["dr0"] = dr0
                if ign:
                    a["ignore_constraints"] = True
                if rng.random() < 0.3:
                    a["invmethod"] = "gmres"
                o, r = rec.call(lambda: improved_time_iteration(model, **a))
                d = dict(outcome=o, how=[how, exo, method, a.get("invmethod", "iti")], tol=q(tol), maxit=maxit, ignore=ign, nodes=nodes, atoms=atoms, rule=R)
                if o == "ok":
                    V = at_nodes(r.dr, dp, endo.nodes)
                    K, N = V.shape[:2]
                    pts = [(i, n) for i in range(K) for n in range(N)]
                    pts = rng.sample(pts, min(40 if thorough else 8, len(pts)))
                    d.update(N=int(r.N), fx=q(r.f_x), dx=q(r.d_x), converged=bool(r.x_converged), complementarities=bool(r.complementarities), V=qa(V),
                             points=[dict(i=i, n=n, x=qa(V[i, n])) for i, n in pts])
                rec.event("Run", **d)
                if o == "ok" and rng.random() < 0.5:
                    opt = rng.choice([dict(details=False), dict(verbose=True), dict(verbose="full")])
                    o2, r2 = rec.call(lambda: improved_time_iteration(model, **{**a, **opt}))
                    rec.event("Same", outcome=o2, opts=str(opt), V=qa(at_nodes(r2 if "details" in opt else r2.dr, dp, endo.nodes)) if o2 == "ok" else [])
    return run


Z = [((1, 1, 1), "normal", "linear", None), ((1, 1, 2), "chain", "linear", None), ((1, 2, 1), "normal", "linear", None), ((2, 1, 2), "chain", "linear", None),
     ((1, 1, 1), "chain", "cubic", None), ((1, 1, 2), "ar1", "cubic", None), ((1, 2, 2), "chain", "cubic", None), ((2, 1, 1), "normal", "cubic", None)]
G = [((1, 1, 1), "ar1", "cubic", dict(to="gdp")), ((1, 1, 2), "ar1", "linear", dict(to="gdp")), ((1, 1, 1), "unormal", "linear", dict(to="iid", N=3)), ((2, 1, 1), "var1", "linear", None),
     ((1, 1, 2), "unormal", "cubic", None), ((1, 2, 1), "ar1", "linear", dict(to="mc", N=2)), ((1, 2, 1), "unormal", "linear", None), ((1, 1, 1), "var1", "linear", dict(to="mc", N=2))]
STEEP = """name: steep
symbols:
    exogenous: [z]
    states: [k]
    controls: [i]
    parameters: [a, c, d]
equations:
    arbitrage: |
        a*(i[t]^3 - 0.1 - c*i[t+1] - d*k[t])
    transition: |
        k[t] = 0.5*k[t-1] + i[t-1] + z[t]
calibration:
    k: 1
    i: 0.5
    z: 0
    a: 1
    c: 0
    d: 0
exogenous: !MarkovChain
    values: [[0.0], [0.25]]
    transitions: [[0.7, 0.3], [0.4, 0.6]]
domain:
    k: [0, 4]
options:
    grid: !Cartesian
        n: [4]
"""


def claims(name):
    """steep and flat conditions: changes of the rule and residuals have different sizes"""
    def run(rec):
        rng = rec.rng
        from dolo import yaml_import
        fn = name.replace("/", "_") + ".yaml"
        open(fn, "w").write(STEEP)
        model = yaml_import(fn, check=False)
        for a in rng.sample([0.01, 0.1, 1, 10, 100, 1000], 3):
            model.set_calibration(a=a, c=rng.choice([0, 0.01, 0.05]), d=rng.choice([0, 0.02]))
            for h in rng.sample(range(-16, 1), 9 if not thorough else 15):
                tol = 10.0 ** (h / 2) * a if rng.random() < 0.5 else 10.0 ** (h / 2)
                for maxit in rng.sample(range(1, 9), 3):
                    o, r = rec.call(lambda: improved_time_iteration(model, verbose=False, tol=tol, maxit=maxit))
                    d = dict(outcome=o, tol=q(tol), maxit=maxit, a=a)
                    if o == "ok":
                        d.update(N=int(r.N), fx=q(r.f_x), converged=bool(r.x_converged))
                    rec.event("Claim", **d)
    return run


SC = []
for j in range(8):
    SC.append(("claims/%d" % j, claims("claims/%d" % j)))
for r in range(5 if thorough else 1):
    for j, b in enumerate(["some", "all", "none", "some", "all", "some", "all", "some"]):
        n = "run/%s/%d.%d" % (Z[j][1], j, r)
        SC.append((n, run_iti(n, Z[j][0], b, *Z[j][1:])))
    for j, b in enumerate(["some", "all", "none", "all", "some", "some", "some", "all"]):
        n = "process/%s/%d.%d" % (G[j][1], j, r)
        SC.append((n, run_iti(n, G[j][0], b, *G[j][1:])))
for j in range(8):
    SC.append(("economies/%d" % j, lambda rec, j=j: economies(rec, j, 8, lambda m: improved_time_iteration(m, maxit=60, verbose=False, interp_method="linear"))))
sys.exit(run_scenarios(SC))
