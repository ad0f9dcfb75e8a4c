"""E01: transition matrices and invariant laws of discretized models."""
import os, json
from fractions import Fraction
import numpy as np
from rec import run_scenarios, q, qa, shape
from sgen import gen_solvable, load, exo_lines, process, rule_of
from dolo import yaml_import
from dolo.algos.ergodic import ergodic_distribution
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule
from dolo.numeric.grids import UniformCartesianGrid, NonUniformCartesianGrid, EmptyGrid

thorough = os.environ["VERIF_TIER"] == "thorough"


def one(kind, sizes, k, other):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        nm, ns, nx = sizes
        cap = {1: [2, 3, 5, 7], 2: [2, 3, 4]}.get(ns, [2])
        n = [rng.choice(cap) for _ in range(ns)]
        A = gen_solvable(rng, sizes, exo=exo_lines(rng, nm, kind.split("/")[0]), bounds="none", n=n)
        model = load(rec, rec.sc, A)
        if model is None:
            return
        if rng.random() < 0.5 and kind.split("/")[0] in ("normal", "unormal"):
            model.set_calibration(**{v: rng.randint(-3, 3) / 16 for v in A["symbols"]["exogenous"]})
        opts = {}
        if "/" in kind:
            to = kind.split("/")[1]
            opts = dict(to=to)
        dp = model.exogenous.discretize(**opts)
        own = UniformCartesianGrid([d[0] for d in A["dom"]], [d[1] for d in A["dom"]], A["n"])
        s = own.nodes
        K = max(dp.n_nodes, 1)
        amp = rng.choice([0.25, 1.0, 6.0])
        V = npr.integers(-8, 8, (K, len(s), nx)) / 8 * amp
        endo = own
        if other == "other":
            lo = [d[0] + rng.choice([0, 0.25, -0.25]) for d in A["dom"]]
            hi = [d[1] + rng.choice([0, 0.25, -0.25]) for d in A["dom"]]
            endo = UniformCartesianGrid(lo, hi, [rng.choice(cap) for _ in range(ns)])
        rgrid = own
        if other == "nonuniform":
            endo = rgrid = NonUniformCartesianGrid([np.array([a, a + 0.25 * (b - a), b]) for a, b in A["dom"]])
            V = npr.integers(-8, 8, (K, len(rgrid.nodes), nx)) / 8
        o, dr = rec.call(lambda: DecisionRule(dp.grid, rgrid, dprocess=dp, interp_method="linear", values=V))
        R = rule_of(A, dp, "linear")
        rec.event("Rule", outcome=o, values=qa(V), **R)
        if o != "ok":
            return
        iid = isinstance(dp.grid, EmptyGrid)
        refuse = ns > 2 or other in ("nonuniform", "constant") or kind.endswith("gdp")
        if other == "constant":
            dr = ConstantDecisionRule(np.zeros(nx))
        for law in (True, False):
            if other == "other":
                call = (lambda: ergodic_distribution(model, dr, dp.grid, endo, dp)) if law else (lambda: ergodic_distribution(model, dr, dp.grid, endo, dp, compute_μ=False))
            elif law:
                call = lambda: ergodic_distribution(model, dr)
            else:
                call = lambda: ergodic_distribution(model, dr, dp.grid, endo, dp, compute_μ=False)
            before = (dr.coefficients if False else None, endo.nodes.copy(), np.array(model.calibration["states"]))
            o, r = rec.call(call)
            d = dict(outcome=o, refuse=refuse, how=[kind, str(sizes), other], law=law, iid=iid)
            d["several"] = False
            if o == "ok" and not refuse:
                P, mu = r if law else (r, None)
                N = int(round(np.prod(P.shape) ** 0.5))
                nodes, atoms = process(dp)
                if iid:
                    nodes = [qa(model.calibration["exogenous"])]
                d.update(shape=shape(P), P=qa(P.reshape(N, N)), nodes=nodes, atoms=atoms,
                         endo=dict(min=qa(endo.min), max=qa(endo.max), n=[int(z) for z in endo.n]))
                d["unchanged"] = bool(np.array_equal(before[1], endo.nodes) and np.array_equal(before[2], model.calibration["states"]))
                if law:
                    off = 0 if iid else 1
                    d.update(dims=list(mu.dims), mushape=shape(mu.values), mu=qa(mu.values.ravel()), coords=[qa(mu.coords[z].values) for z in list(mu.dims)[off:]])
            elif o != "ok":
                P, _ = rec.call(lambda: ergodic_distribution(model, dr, dp.grid, endo, dp, compute_μ=False)) if law else ("", None)
                if P == "ok":
                    d["several"] = several(_)
            rec.event("Ergodic", **d)
    return f


def several(P):
    """the chain has several closed classes (only then may a law be refused)"""
    N = int(round(np.prod(P.shape) ** 0.5))
    B = P.reshape(N, N) > 0
    R = B | np.eye(N, dtype=bool)
    for _ in range(12):
        R = (R.astype(int) @ R.astype(int)) > 0
    classes = set()
    for i in range(N):
        if all(R[j, i] for j in range(N) if R[i, j]):
            classes.add(tuple(np.flatnonzero(R[i])))
    return len(classes) > 1


MODEL = """name: line
symbols:
    exogenous: [z]
    states: [s]
    controls: [x]
    parameters: [c, r, b]
equations:
    arbitrage: |
        x[t] - s[t]
    transition: |
        s[t] = c + r*x[t-1] + b*z[t]
calibration:
    s: 0.5
    x: 0.5
    z: 0
    c: 0
    r: 0
    b: 0
exogenous: !MarkovChain
    values: [[-1], [1]]
    transitions: [[%r, %r], [%r, %r]]
domain:
    s: [0, 1]
options:
    grid: !Cartesian
        n: [%d]
"""


def replay(k, n):
    def f(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "laws.json")))
        F = lambda z: float(Fraction(z))
        keep = {}
        for b in B[k::n]:
            key = (b["p"], b["q"], b["n"])
            if key not in keep:
                fn = os.path.abspath("line_%d_%d.yaml" % (os.getpid(), len(keep)))
                open(fn, "w").write(MODEL % (F(b["p"]), 1 - F(b["p"]), F(b["q"]), 1 - F(b["q"]), b["n"]))
                keep[key] = yaml_import(fn, check=False)
            model = keep[key]
            model.set_calibration(c=F(b["c"]), r=F(b["r"]), b=F(b["b"]))
            dp = model.exogenous.discretize()
            g = UniformCartesianGrid([0], [1], [b["n"]])
            dr = DecisionRule(dp.grid, g, dprocess=dp, interp_method="linear", values=np.array([g.nodes, g.nodes]))
            o, r = rec.call(lambda: ergodic_distribution(model, dr))
            d = dict(outcome=o, b=b)
            if o == "ok":
                d.update(P=qa(r[0].reshape(2 * b["n"], 2 * b["n"])), mu=qa(r[1].values.ravel()))
            rec.event("Replay", **d)
    return f


S = []
kinds = ["chain", "normal", "unormal", "ar1", "var1", "ar1/mc", "var1/mc", "ar1/gdp"]
for rep in range(6 if thorough else 1):
    for kind in kinds:
        for sizes in [(1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 1)]:
            if kind.split("/")[0] in ("unormal", "ar1") and sizes[0] > 1:
                continue
            if sizes == (2, 2, 1) and kind.startswith("var1") and not thorough:
                continue
            for other in ("own", "other"):
                S.append(("%s/%s/%s/%d" % (kind, "".join(map(str, sizes)), other, rep), one(kind, sizes, rep, other)))
for kind, sizes, other in [("chain", (1, 3, 1), "own"), ("normal", (1, 3, 1), "own"), ("chain", (1, 1, 1), "nonuniform"), ("normal", (1, 1, 1), "nonuniform"),
                           ("normal", (1, 2, 1), "nonuniform"), ("chain", (1, 1, 1), "constant")]:
    S.append(("refused/%s/%s/%s" % (kind, "".join(map(str, sizes)), other), one(kind, sizes, 0, other)))
for k in range(8):
    S.append(("laws/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
