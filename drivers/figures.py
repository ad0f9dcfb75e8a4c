"""I01: figures of simulations and decision rules."""
import os, json
from fractions import Fraction
import matplotlib
matplotlib.use("Agg")
import numpy as np, pandas as pd
from matplotlib import pyplot as plt
from matplotlib.colors import to_hex
from rec import run_scenarios, q, qa
from dolo import yaml_import
from dolo.misc.graphs import plot_irfs
from dolo.algos.commands import plot_decision_rule
from dolo.algos.perturbation import BivariateTaylor
from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import DecisionRule

thorough = os.environ["VERIF_TIER"] == "thorough"


def lines(ax):
    return [dict(x=qa(np.asarray(l.get_xdata(), dtype=float)), y=qa(np.asarray(l.get_ydata(), dtype=float)), label=str(l.get_label()),
                 style=[to_hex(l.get_color()), l.get_linestyle()]) for l in ax.get_lines()]


def irfs(rec, sims, how, variables=None, titles=None, horizon=None, layout=None, line_options=None, plot_options=None, single=False, positional=False):
    plt.close("all")
    kw = {}
    for k, v in dict(titles=titles, horizon=horizon, layout=layout, line_options=line_options, plot_options=plot_options, variables=variables).items():
        if v is not None:
            kw[k] = v
    before = [s.copy() for s in sims]
    keep = None if plot_options is None else dict(plot_options)
    arg = sims[0] if single else sims
    if positional and variables is not None:
        kw.pop("variables")
        o, fig = rec.call(lambda: plot_irfs(arg, variables, **kw))
    else:
        o, fig = rec.call(lambda: plot_irfs(arg, **kw))
    vs = list(variables) if variables is not None else [str(c) for c in sims[0].columns]
    d = dict(outcome=o, how=how, vars=vs, titles=list(titles) if titles is not None else vs, horizon=horizon if horizon is not None else len(sims[0]),
             layout=list(layout) if layout is not None else [], dated=bool(any(s.index[0] != 0 for s in sims)),
             sims=[dict(dates=qa(np.asarray(s.index, dtype=float)), vars={str(c): qa(np.asarray(s[c], dtype=float)) for c in s.columns}) for s in sims],
             styles=[[to_hex(l["color"]) if "color" in l else "", l.get("linestyle", "-")] for l in (line_options or [{}] * len(sims))],
             unchanged=plot_options == keep and all(a.equals(b) for a, b in zip(before, sims)))
    if o == "ok":
        axes = fig.axes
        g = axes[0].get_gridspec() if axes else None
        d.update(panels=[dict(title=a.get_title(), lines=lines(a), xlim=qa(np.array(a.get_xlim())), ylim=qa(np.array(a.get_ylim()))) for a in axes],
                 rows=int(g.nrows) if g else 0, cols=int(g.ncols) if g else 0)
    rec.event("Simulations", **d)
    plt.close("all")


def simulations(k):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        for j in range(7):
            nv = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13] if j else [1, 2, 3])
            names = ["v%d" % i for i in range(nv + rng.choice([0, 2]))]
            rng.shuffle(names)
            ns = rng.choice([1, 1, 2, 2, 3, 4])
            T = rng.choice([1, 2, 7, 20])
            start = rng.choice([0, 0, 0, 1])
            sims = []
            for i in range(ns):
                n = T if rng.random() < 0.7 else T + rng.choice([1, 5])
                D = npr.integers(-64, 64, (n, len(names))) / 16 * rng.choice([1, 1, 100, 0.001])
                if rng.random() < 0.3:
                    D[:, 0] = 2.5
                if rng.random() < 0.2:
                    D[rng.randrange(n), rng.randrange(len(names))] = np.nan
                cols = list(names)
                if i:
                    rng.shuffle(cols)
                sims.append(pd.DataFrame(D, columns=names, index=range(start, start + n))[cols])
            variables = rng.sample(names, nv) if len(names) > nv or rng.random() < 0.5 else None
            if variables is None:
                nv = len(names)
            kw = dict(variables=variables, single=ns == 1 and rng.random() < 0.6, positional=rng.random() < 0.5)
            if rng.random() < 0.3:
                kw["titles"] = ["title %d" % i for i in range(nv)]
            if rng.random() < 0.4:
                kw["horizon"] = rng.choice([1, 3, 5, 30])
            if rng.random() < 0.3 and nv <= 12:
                kw["layout"] = rng.choice([l for l in [(1, nv), (nv, 1), (2, (nv + 1) // 2), (4, 3)] if l[0] * l[1] >= nv])
            if rng.random() < 0.3:
                kw["line_options"] = [dict(color=c, linestyle=s) for c, s in zip(["red", "blue", "green", "black"], ["-", "--", ":", "-."])][:ns]
                if rng.random() < 0.5:
                    for l in kw["line_options"]:
                        l.pop(rng.choice(["color", "linestyle"]))
            if rng.random() < 0.2:
                kw["plot_options"] = dict(linewidth=2)
            irfs(rec, sims, [str(nv), str(ns), str(T)], **kw)
    return f


MODEL = """name: figures
symbols:
    exogenous: [e]
    states: [k, z]
    controls: [c, i]
    parameters: [b]
equations:
    arbitrage:
        - c[t] - b*c[t+1]
        - i[t] - b*i[t+1]
    transition:
        - k[t] = 0.5*k[t-1] + e[t]
        - z[t] = 0.5*z[t-1]
calibration: {e: 0.125, k: 0.5, z: -0.25, c: 0, i: 0, b: 0.5}
exogenous: !%s
domain:
    k: [-1, 2]
    z: [-0.5, 4]
options:
    grid: !Cartesian
        n: [4, 3]
"""
EXO = {"iid": "Normal\n    Σ: [[0.01]]", "chain": "MarkovChain\n    values: [[0], [1], [-1]]\n    transitions: [[0.5, 0.25, 0.25], [0.25, 0.5, 0.25], [0.25, 0.25, 0.5]]"}


def rules(k):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        for kind in ["iid", "chain", "taylor"]:
            fn = "figures_%s_%d.yaml" % (kind, k)
            open(fn, "w").write(MODEL % EXO["chain" if kind == "chain" else "iid"])
            o, model = rec.call(lambda: yaml_import(fn, check=False))
            if o != "ok":
                rec.event("Rule", outcome=o, how=[kind])
                continue
            A = lambda *sh: npr.integers(-32, 32, sh) / 16
            for _ in range(3):
                b, K, Km = A(3, 2), A(2, 2), A(2, 1)
                if kind == "taylor":
                    dr = BivariateTaylor(np.array([0.125]), np.zeros(2), b[0], Km, K)
                else:
                    g, dp = model.discretize()
                    s = g["endo"].nodes
                    nm = max(1, dp.n_nodes if kind == "chain" else 1)
                    dr = DecisionRule(g["exo"], g["endo"], dprocess=dp, values=np.array([b[j] + s @ K.T for j in range(nm)]), interp_method="linear")
                for _ in range(4):
                    plt.close("all")
                    i = rng.randrange(2)
                    kw, n, s0, lo, hi, j = {}, 100, [0.5, -0.25], [-1, -0.5][i], [2, 4][i], 1 if kind == "chain" else 0
                    bj = b[j]
                    if rng.random() < 0.6:
                        n = kw["n_steps"] = rng.choice([2, 5, 11])
                    if rng.random() < 0.5:
                        lo, hi = kw["bounds"] = rng.choice([[0, 1], [-0.25, 1.5], (0.5, 1.0)])
                    if rng.random() < 0.5:
                        s0 = [0.25, 0.75]
                        kw["s0"] = np.array(s0) if rng.random() < 0.5 else list(s0)
                    if kind == "chain" and rng.random() < 0.6:
                        j = kw["i0"] = rng.randrange(3)
                        bj = b[j]
                    if kind == "chain":
                        bj = b[j]
                    if kind == "taylor" and rng.random() < 0.5:
                        kw["m0"] = np.array([0.625])
                        bj = b[0] + Km[:, 0] * 0.5
                    ctl = rng.choice(["c", "i", ["c"], ["i", "c"], ["c", "i"], None])
                    style = {"color": "red"} if rng.random() < 0.3 else {}
                    if isinstance(ctl, str) and rng.random() < 0.5:
                        style["label"] = "my rule"
                    arg = dr
                    if rng.random() < 0.3:       # what an algorithm returns
                        arg = AlgoResult()
                        arg.dr = dr
                    st = ["k", "z"][i]
                    o, r = rec.call(lambda: plot_decision_rule(model, arg, st, ctl, **kw, **style))
                    cs = [ctl] if isinstance(ctl, str) else ctl if ctl is not None else ["c", "i"]
                    d = dict(outcome=o, how=[kind, st, str(ctl), str(sorted(kw))], controls=cs, labels=[], n=n, lo=q(lo), hi=q(hi), s0=qa(np.array(s0)), i=i + 1,
                             rule={c: dict(b=q(bj[m]), K=qa(K[m])) for m, c in enumerate(["c", "i"])})
                    if o == "ok" and ctl is not None:
                        L = lines(plt.gca())
                        d.update(lines=L, labels=(["my rule"] if "label" in style else []) if isinstance(ctl, str) else list(ctl))
                    elif o == "ok":
                        d.update(lines=[dict(x=qa(np.asarray(r[st])), y=qa(np.asarray(r[c]))) for c in cs])
                    rec.event("Rule", **d)
            plt.close("all")
    return f


def replay(k, n):
    def f(rec):
        F = lambda z: float(Fraction(z))
        for b in json.load(open(os.path.join(os.environ["VERIF_BEH"], "figures.json")))[k::n]:
            sims = [pd.DataFrame({v: [F(z) for z in s["vars"][v]] for v in s["vars"]}, index=[int(z) for z in s["dates"]]) for s in b["sims"]]
            irfs(rec, sims, ["replay"], variables=b["vars"], horizon=b["horizon"])
    return f


S = []
for k in range(40 if thorough else 8):
    S.append(("simulations/%d" % k, simulations(k)))
    S.append(("rules/%d" % k, rules(k)))
for k in range(8):
    S.append(("figures/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
