"""S01: simulations, responses and tables of models under decision rules."""
import sys, os, json
import numpy as np
from rec import run_scenarios, q, qa
from mgen import gen, rand_expr, var, par, show, num
from dolo import yaml_import, simulate, response, tabulate
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CustomDR
from dolo.algos.simulations import tabulate_2d
from dolo.algos.perturbation import BivariateTaylor
from dolo.algos.results import PerturbationResult
from dolo.numeric.processes import MarkovChain, AR1, VAR1
from dolo.numeric.distribution import Normal, FiniteDistribution
from dolo.numeric.grids import *

thorough = os.environ["VERIF_TIER"] == "thorough"


def make_model(rec, name, sizes, exo=None):
    A = gen(rec.rng, blocks=["arbitrage", "transition"], sizes=sizes, tame=True, exo=exo)
    fn = os.path.abspath("%s_%d.yaml" % (name.replace("/", "_"), os.getpid()))
    open(fn, "w").write(A["yaml"])
    o, model = rec.call(lambda: yaml_import(fn, check=False))
    p = model.calibration["parameters"] if o == "ok" else []
    rec.event("Model", outcome=o, symbols=A["symbols"], defs=A["defs"], blocks=A["blocks"], bounds=[], p=qa(p))
    return A, model


def box(rng, d):
    a = np.array([rng.uniform(-1, 0.5) for _ in range(d)])
    return a, a + np.array([rng.choice([1.0, 2.5, rng.uniform(0.5, 4)]) for _ in range(d)])


def rule(rec, kind, A, model, V=None):
    """a decision rule and its description"""
    rng, npr = rec.rng, rec.nprng
    nm, ns, nx = (len(A["symbols"][g]) for g in ("exogenous", "states", "controls"))
    B = lambda *sh: npr.integers(-8, 8, sh) / 16
    if kind == "constant":
        x0 = B(nx)
        R, dr = dict(kind="constant", x0=qa(x0)), ConstantDecisionRule(x0)
    elif kind == "bitaylor":
        mb, sb, xb, Cm, Cs = B(nm), B(ns), B(nx), B(nx, nm), B(nx, ns)
        if rng.random() < 0.3:
            Cm = None
        R, dr = dict(kind="bitaylor", mbar=qa(mb), sbar=qa(sb), xbar=qa(xb), Cm=qa(Cm) if Cm is not None else [], Cs=qa(Cs)), BivariateTaylor(mb, sb, xb, Cm, Cs)
    elif kind == "custom":
        sym = A["symbols"]
        lv = [var(v) for g in ("exogenous", "states") for v in sym[g]] + [par(p) for p in sym["parameters"]]
        ex = []
        for _ in sym["controls"]:
            e = rand_expr(rng, lv, 2)
            ex.append(["div", e, ["add", num(1), ["mul", e, e]]])
        dr = CustomDR({c: show(e, None, True).replace("[t]", "") for c, e in zip(sym["controls"], ex)}, model)
        R = dict(kind="custom", M=dict(symbols=sym, defs=[], blocks={"transition": []}, bounds=[dict(lb=e, ub=e) for e in ex]), p=qa(model.calibration["parameters"]))
    else:
        _, exo, method = kind.split("-")
        a, b = box(rng, ns)
        n = [rng.choice([2, 3, 4]) for _ in range(ns)]
        g = UniformCartesianGrid(a, b, n)
        R = dict(kind="grid", exo=exo, method=method, uniform=True, min=qa(a), max=qa(b), n=n)
        if exo == "empty":
            eg, k = EmptyGrid(), 1
        elif exo == "chain":
            eg, k = UnstructuredGrid(V), len(V)
        else:
            ma, mb = box(rng, nm)
            mn = [rng.choice([2, 3]) for _ in range(nm)]
            eg = UniformCartesianGrid(ma, mb, mn)
            k = eg.n_nodes
            R.update(mmin=qa(ma), mmax=qa(mb), mn=mn)
        vals = npr.integers(-16, 16, (k, g.n_nodes, nx)) / 16
        R["values"] = qa(vals)
        dr = DecisionRule(eg, g, interp_method=method, values=vals)
    rec.event("Rule", outcome="ok", **R)
    return dr


def emit(rec, o, sim, S):
    """one event for the simulation, one per date"""
    if o == "ok":
        S.update(cols=[str(c) for c in sim.coords["V"].values], dims=list(sim.dims), sizes=[int(x) for x in sim.shape])
    rec.event("Sim", outcome=o, **S)
    if o == "ok" and sim.ndim == 3:
        D = np.asarray(sim)
        for t in range(D.shape[0]):
            rec.event("Date", t=t, label=int(sim.coords["T"].values[t]), rows=qa(D[t]))


def chain_law(rng, nm):
    k = rng.choice([1, 2, 3])
    V = np.array([[rng.randint(-8, 8) / 8 for _ in range(nm)] for _ in range(k)])
    if k > 1 and rng.random() < 0.4:       # states which differ only by what follows them
        V[k - 1] = V[0]
    P = np.zeros((k, k))
    for i in range(k):
        w = [rng.choice([0, 0, 1, 2, 3]) for _ in range(k)]
        if not sum(w):
            w[rng.randrange(k)] = 1
        P[i] = np.array(w) / sum(w)
    return P, V


def continuous(name, kind, sizes):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A, model = make_model(rec, name, sizes)
        if model is None:
            return
        nm, ns = sizes["exogenous"], sizes["states"]
        dr = rule(rec, kind, A, model)
        for how in ("model", "driving", "process", "stay", "process", "driving"):
            N, T = rng.choice([1, 2, 3]), rng.choice([1, 2, 6, 12])
            S = dict(kind="continuous", how=how, N=N, T=T, shocks="any")
            kw = dict(N=N, T=T)
            sto, det, prior = True, False, True
            if rng.random() < 0.6:
                s0 = np.array([rng.uniform(-1, 1.5) for _ in range(ns)]) if rng.random() < 0.8 else np.array([rng.randint(-1, 1) for _ in range(ns)])
                kw["s0"] = s0
            else:
                s0 = np.array(model.calibration["states"])
            S["s0"] = qa(s0)
            if how == "driving":
                d = npr.integers(-16, 16, (T, N, nm)) / 16 if rng.random() < 0.8 else npr.integers(-1, 2, (T, N, nm))
                kw["driving_process"] = d.copy()
                S.update(shocks="driving", drive=qa(d))
                det = True
            elif how in ("process", "stay"):
                if how == "process" and rng.random() < 0.4:
                    pts = npr.integers(-16, 16, (3, nm)) / 16
                    kw["process"] = FiniteDistribution(pts, np.array([0.25, 0.25, 0.5]))
                    S.update(shocks="atoms", atoms=qa(pts))
                    det = True       # finitely many values: paths may coincide
                else:
                    mu = npr.integers(-8, 8, nm) / 8
                    R = np.diag(npr.integers(-7, 8, nm) / 8)
                    Sg = np.eye(nm) * 0.04
                    kw["process"] = AR1(ρ=float(R[0, 0]), σ=0.2, μ=float(mu[0])) if nm == 1 and rng.random() < 0.5 else VAR1(ρ=R, Σ=Sg, μ=mu)
                    m0 = npr.integers(-8, 8, nm) / 8 if rng.random() < 0.8 else npr.integers(-1, 2, nm)
                    if rng.random() < 0.7:
                        kw["m0"] = m0
                    else:
                        m0 = mu
                    S.update(shocks="autoregression", mu=qa(mu), R=qa(R), m0=qa(m0))
                    if how == "stay":
                        S["shocks"] = "recursion"
                        kw["stochastic"] = False
                        det = True
                    elif T == 1:
                        det = True
            finish(rec, model, dr, kw, S, det, A)
        n = 5
        for _ in range(3):
            table(rec, model, dr, A, kind, None)
    return run


def finish(rec, model, dr, kw, S, det, A):
    rng = rec.rng
    if rng.random() < 0.3:
        dr = PerturbationResult(dr, None, True, True, True)
    default = rng.random() < 0.3
    if not default:
        kw["seed"] = rng.randrange(10**6)
    before = {k: np.array(v) for k, v in kw.items() if isinstance(v, np.ndarray)}

    def go(**more):
        np.random.seed(rng.randrange(10**6))
        return simulate(model, dr, **{**kw, **more})
    o, r = rec.call(lambda: [go(), go(), go(seed=kw.get("seed", 42) + 1)])
    sim = None
    if o == "ok":
        D = [np.asarray(x) for x in r]
        S["again"] = bool(np.array_equal(D[0], D[1], equal_nan=True))
        S["other"] = bool(det or not np.array_equal(D[0], D[2]))
        off = 1 if S["kind"] == "discrete" else 0
        m = D[0][:, :, off:off + len(A["symbols"]["exogenous"])]
        S["distinct"] = bool(det or len({m[:, k].tobytes() for k in range(m.shape[1])}) == m.shape[1])
        S["intact"] = all(np.array_equal(kw[k], v) for k, v in before.items())
        sim = r[0]
    emit(rec, o, sim, S)


def table(rec, model, dr, A, kind, mc):
    rng = rec.rng
    sym = A["symbols"]
    nm, ns = len(sym["exogenous"]), len(sym["states"])
    k = rng.randrange(ns)
    kw = {}
    n = rng.choice([1, 2, 5])
    kw["n_steps"] = n
    s0 = np.array(model.calibration["states"])
    if rng.random() < 0.5:
        s0 = np.array([rng.uniform(-1, 1) for _ in range(ns)]) if rng.random() < 0.6 else np.array([rng.randint(-1, 1) for _ in range(ns)])
        kw["s0"] = s0
    if rng.random() < 0.5:
        lo, hi = rng.uniform(-1, 0), rng.uniform(0, 1)
        kw["bounds"] = [lo, hi]
    elif not hasattr(getattr(dr, "endo_grid", None), "min"):      # the domain of the model
        lo, hi = (float(z) for z in model.get_domain()[sym["states"][k]])
    else:
        lo, hi = float(dr.endo_grid.min[k]), float(dr.endo_grid.max[k])
    i = 0
    if mc is not None:
        i = rng.randrange(len(mc.values))
        m = mc.values[i]
        if mc.grid is getattr(dr, "exo_grid", None) or rng.random() < 0.6:
            kw["i0"] = i
    elif rng.random() < 0.6:
        m = np.array([rng.randint(-8, 8) / 8 for _ in range(nm)])
        kw["m0"] = m
    else:
        m = model.calibration["exogenous"]
    # when no node of the chain is asked for, any of them will do
    cands = [dict(i=k, m=qa(v)) for k, v in enumerate(mc.values)] if mc is not None and "i0" not in kw else [dict(i=i, m=qa(np.asarray(m)))]
    before, s0_ = np.array(model.calibration["states"]), s0.copy()
    arg = PerturbationResult(dr, None, True, True, True) if rng.random() < 0.3 else dr
    o, df = rec.call(lambda: tabulate(model, arg, sym["states"][k], **kw))
    d = dict(outcome=o, n=n, state=k + 1, lo=q(lo), hi=q(hi), s0=qa(s0), cands=cands, intact=True)
    if o == "ok":
        d.update(cols=[str(c) for c in df.columns], rows=qa(np.asarray(df)))
        d["intact"] = bool(np.array_equal(before, model.calibration["states"])) and ("s0" not in kw or np.array_equal(kw["s0"], s0_))
    rec.event("Tabulate", **d)
    if ns > 1 and hasattr(dr, "eval_is"):
        table2d(rec, model, dr, A, mc)


def table2d(rec, model, dr, A, mc):
    rng, sym = rec.rng, A["symbols"]
    ns = len(sym["states"])
    w = rng.sample(range(ns), 2)
    n = [rng.choice([1, 2, 4]), rng.choice([2, 3])]
    kw, s0 = dict(n=n), np.array(model.calibration["states"])
    if rng.random() < 0.6:
        s0 = np.array([rng.uniform(-1, 1) for _ in range(ns)]) if rng.random() < 0.6 else np.array([rng.randint(-1, 1) for _ in range(ns)])
        kw["s0"] = s0.copy()
    if ns > 2 or rng.random() < 0.6:
        kw["states"] = [sym["states"][k] for k in w]
    else:
        w = [0, 1]
    i, m = 0, np.array(model.calibration["exogenous"])
    eg = getattr(dr, "exo_grid", None)
    K = eg.n_nodes if eg is not None else 1
    if K > 1 or rng.random() < 0.3:
        i = kw["i0"] = rng.randrange(max(K, 1))
    if K >= 1 and hasattr(eg, "nodes"):
        m = np.array(eg.node(i))
    before = np.array(model.calibration["states"])
    arg = PerturbationResult(dr, None, True, True, True) if rng.random() < 0.3 else dr
    o, r = rec.call(lambda: tabulate_2d(model, arg, **kw))
    D = model.get_domain()
    d = dict(outcome=o, states=[k + 1 for k in w], n=n, s0=qa(s0), i=i, m=qa(m), dom=[qa(D[sym["states"][k]]) for k in w])
    if o == "ok":
        N = [sym["states"][k] for k in w]
        d.update(dims=[str(z) for z in r.dims], sizes=[int(z) for z in r.shape], labels=[str(z) for z in r.coords["V"].values] if "V" in r.coords else [],
                 axes=[qa(r.coords[z].values) if z in r.coords else [] for z in N], cells=qa(np.asarray(r)),
                 intact=bool(np.array_equal(before, model.calibration["states"]) and ("s0" not in kw or np.array_equal(kw["s0"], s0))))
    rec.event("Table2D", **d)


def discrete(name, kind, sizes):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A, model = make_model(rec, name, sizes)
        if model is None:
            return
        nm, ns = sizes["exogenous"], sizes["states"]
        for rep in range(2):
            P, V = chain_law(rng, nm)
            mc = MarkovChain(P, V)
            dr = rule(rec, kind, A, model, V)
            for how in ("process", "stay", "driving", "dprocess"):
                N, T = rng.choice([1, 2, 4]), rng.choice([1, 2, 6, 12])
                S = dict(kind="discrete", how=how, N=N, T=T, shocks="chain", P=qa(P), V=qa(V))
                kw = dict(N=N, T=T)
                if rng.random() < 0.6:
                    s0 = np.array([rng.uniform(-1, 1.5) for _ in range(ns)]) if rng.random() < 0.8 else np.array([rng.randint(-1, 1) for _ in range(ns)])
                    kw["s0"] = s0
                else:
                    s0 = np.array(model.calibration["states"])
                S["s0"] = qa(s0)
                i0 = 0
                if how == "driving":
                    d = npr.integers(0, len(V), (T, N))
                    kw["driving_process"] = d.copy()
                    S.update(shocks="driving-chain", drive=qa(d))
                    if not hasattr(dr, "exo_grid") or not hasattr(dr.exo_grid, "nodes") or kind != "grid-chain-linear" and kind != "grid-chain-cubic":
                        continue
                else:
                    if rng.random() < 0.6:
                        i0 = rng.randrange(len(V))
                        kw["i0"] = i0
                    S["i0"] = q(i0)
                    if how == "dprocess":
                        dr.dprocess = mc
                    else:
                        kw["process"] = mc
                    if how == "stay":
                        S["shocks"] = "stay"
                        kw["stochastic"] = False
                finish(rec, model, dr, kw, S, True, A)
            if hasattr(dr, "dprocess"):
                dr.dprocess = mc
                for _ in range(2):
                    table(rec, model, dr, A, kind, mc)
            # many paths from one state do not all follow the same states
            if len(V) > 1 and kind.startswith("grid-chain"):
                k = len(V)
                P2 = np.full((k, k), 1.0 / k)
                V2 = np.array([[i + j / 8 for j in range(nm)] for i in range(k)])
                o, r = rec.call(lambda: np.asarray(simulate(model, dr, process=MarkovChain(P2, V2), N=20, T=20))[:, :, 0])
                rec.event("Sim", outcome=o, kind="discrete", how="many", N=20, T=20, shocks="any", cols=["_i_m"] + A["symbols"]["exogenous"] + A["symbols"]["states"] + A["symbols"]["controls"] + [d["name"] for d in A["defs"]],
                          dims=["T", "N", "V"], sizes=[20, 20, 1 + sum(len(A["symbols"][g]) for g in ("exogenous", "states", "controls")) + len(A["defs"])], again=True, other=True, intact=True,
                          distinct=r is not None and len({r[:, j].tobytes() for j in range(20)}) > 1)
    return run


def responses(name, kind, sizes, law):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        nm = sizes["exogenous"]
        sd = [rng.randint(1, 8) / 16 for _ in range(nm)]
        R = np.zeros((nm, nm))
        mu = np.zeros(nm)
        S = "[" + ", ".join("[" + ", ".join(repr(sd[i] ** 2) if i == j else "0.0" for j in range(nm)) + "]" for i in range(nm)) + "]"
        if law == "normal":
            exo = ["exogenous: !Normal", "    Σ: " + S]
        elif law == "unormal":
            exo = ["exogenous: !UNormal", "    σ: %r" % sd[0]]
        elif law == "ar1":
            R[0, 0] = rng.randint(-7, 7) / 8
            mu[0] = rng.choice([0.0, rng.randint(-4, 4) / 8])
            exo = ["exogenous: !AR1", "    ρ: %r" % float(R[0, 0]), "    σ: %r" % sd[0]] + (["    μ: %r" % float(mu[0])] if mu[0] else [])
        else:
            if rng.random() < 0.3:
                r = rng.randint(-7, 7) / 8
                R = np.eye(nm) * r
            else:
                R = npr.integers(-5, 6, (nm, nm)) / 8
                r = R.tolist()
            exo = ["exogenous: !VAR1", "    ρ: %r" % r, "    Σ: " + S]
        A, model = make_model(rec, name, sizes, exo)
        if model is None:
            return
        dr = rule(rec, kind, A, model)
        for rep in range(4):
            T = rng.choice([2, 3, 8, 12])
            k = rng.randrange(nm)
            e = np.zeros(nm)
            e[k] = sd[k]
            kw = dict(T=T)
            if rep % 2:
                e[k] = kw["impulse"] = rng.choice([-0.5, 0.25, 1.0])
            o, r = rec.call(lambda: [response(model, dr, A["symbols"]["exogenous"][k], **kw) for _ in range(2)])
            d = dict(kind="continuous", how="response", N=1, T=T, shocks="impulse", mu=qa(mu), R=qa(R), impulse=qa(e), s0=qa(model.calibration["states"]),
                     other=True, distinct=True, intact=True)
            sim = None
            if o == "ok":
                d["again"] = bool(np.array_equal(np.asarray(r[0]), np.asarray(r[1])))
                sim = r[0].expand_dims("N", axis=1) if "N" not in r[0].dims else r[0]
            emit(rec, o, sim, d)
    return run


def replay(rec):
    """every path of MC_Simulation"""
    B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "paths.json")))
    nodes, a, b = [-1.0, 2.0, 0.0], [1, -1, 0], [0, 1, -1]
    Y = """name: replayed
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [p]
equations:
    arbitrage: |
        x[t+1] - x[t] - p
    transition: |
        s[t] = s[t-1] - x[t-1] + e[t-1] + 2*e[t]
calibration:
    s: 3
    x: 0
    e: 0
    p: 0
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-8, 8]
"""
    open("replayed.yaml", "w").write(Y)
    model = yaml_import("replayed.yaml", check=False)
    rec.event("Model", outcome="ok", symbols=dict(exogenous=["e"], states=["s"], controls=["x"], parameters=["p"]), defs=[], blocks={"transition": []}, bounds=[], p=["0"])
    g = UniformCartesianGrid([-8.0], [8.0], [2])
    vals = np.array([[[a[i] + b[i] * s[0]] for s in g.nodes] for i in range(3)])
    dr = DecisionRule(UnstructuredGrid(np.array(nodes)[:, None]), g, interp_method="linear", values=vals)
    rec.event("Rule", outcome="ok", kind="constant", x0=["0"])
    T = len(B[0])
    I = np.array([[p[t]["m"] - 1 for p in B] for t in range(T)])
    o, sim = rec.call(lambda: simulate(model, dr, N=len(B), T=T, driving_process=I))

    class Rule3:
        def eval_ms(self, m, s):
            k = np.array([nodes.index(v) for v in m[:, 0]])
            return (np.array(a)[k] + np.array(b)[k] * s[:, 0])[:, None]
    o2, sim2 = rec.call(lambda: simulate(model, Rule3(), N=len(B), T=T, m0=np.array([nodes[0]]), driving_process=np.array(nodes)[I][:, :, None]))
    for oo, ss in ((o, sim), (o2, sim2)):
        for n, p in enumerate(B):
            got = []
            if oo == "ok":
                d = ss.sel(N=n)
                got = [dict(s=q(d.sel(V="s", T=t).data), x=q(d.sel(V="x", T=t).data)) for t in range(T)]
            rec.event("Replay", outcome=oo, path=p, got=got)


Z = lambda m, s, x: dict(exogenous=m, states=s, controls=x)
C = [("custom", Z(1, 2, 2)), ("bitaylor", Z(2, 2, 2)), ("grid-empty-linear", Z(1, 1, 2)), ("grid-grid-linear", Z(1, 1, 1)), ("custom", Z(2, 1, 1)), ("bitaylor", Z(1, 3, 2)),
     ("constant", Z(1, 2, 3)), ("grid-grid-linear", Z(1, 2, 1))]
D = [("grid-chain-linear", Z(1, 1, 2)), ("grid-chain-linear", Z(2, 1, 1)), ("grid-chain-linear", Z(1, 2, 2)), ("grid-chain-cubic", Z(1, 1, 1)), ("grid-empty-linear", Z(1, 1, 1)), ("constant", Z(1, 2, 2)),
     ("grid-chain-linear", Z(1, 2, 1)), ("grid-chain-linear", Z(2, 2, 3))]
R = [("bitaylor", Z(1, 2, 2), "normal"), ("custom", Z(2, 2, 1), "normal"), ("bitaylor", Z(1, 1, 2), "unormal"), ("custom", Z(1, 2, 1), "ar1"), ("bitaylor", Z(2, 2, 1), "var1"), ("bitaylor", Z(2, 1, 2), "var1"), ("bitaylor", Z(3, 1, 1), "var1"),
     ("custom", Z(1, 1, 1), "unormal"), ("constant", Z(2, 2, 2), "normal"), ("bitaylor", Z(1, 1, 1), "ar1")]
SC = []
for r in range(6 if thorough else 1):
    for j in range(8):
        n = "continuous/%s/%d.%d" % (C[j][0], j, r)
        SC.append((n, continuous(n, *C[j])))
    for j in (4, 5, 0, 6, 1, 2, 3, 7):
        n = "discrete/%s/%d.%d" % (D[j][0], j, r)
        SC.append((n, discrete(n, *D[j])))
    for j in range(len(R)):
        n = "response/%s/%d.%d" % (R[j][0], j, r)
        SC.append((n, responses(n, *R[j])))
SC.append(("paths-of-the-specification", replay))
sys.exit(run_scenarios(SC))
