"""Random models which can be solved: bounded transitions which stay in the
domain, contracting optimality conditions, proper bounds; discretized shocks."""
from fractions import Fraction
import os
import numpy as np
from mgen import POOL, GROUPS, num, var, par, dec, top, rand_expr
from rec import qa, q
from dolo import yaml_import
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CustomDR
from dolo.algos.perturbation import BivariateTaylor
from dolo.algos.results import TimeIterationResult


def fr(rng, lo, hi, d=16):
    return Fraction(rng.randint(int(lo * d), int(hi * d)), d)


def add(*es):
    r = es[0]
    for e in es[1:]:
        r = ["add", r, e]
    return r


def mul(c, e):
    return ["mul", num(c), e] if c >= 0 else ["neg", ["mul", num(-c), e]]


def squash(e):
    return ["div", e, ["add", num(1), ["mul", e, e]]]


def exo_lines(rng, nm, kind):
    """(yaml lines, kind)"""
    sd = [rng.choice([0.1, 0.2, 0.125]) for _ in range(nm)]
    S = "[" + ", ".join("[" + ", ".join(repr(sd[i] ** 2) if i == j else (repr(0.5 * sd[0] * sd[1]) if kind == "normal" else "0.0") for j in range(nm)) + "]" for i in range(nm)) + "]"
    if kind == "normal":
        return ["exogenous: !Normal", "    Σ: " + S]
    if kind == "unormal":
        return ["exogenous: !UNormal", "    σ: %r" % sd[0]]
    if kind == "ar1":
        return ["exogenous: !AR1", "    ρ: %r" % rng.choice([0.5, 0.8, -0.3]), "    σ: %r" % sd[0]]
    if kind == "var1":
        return ["exogenous: !VAR1", "    ρ: %r" % rng.choice([0.5, 0.8]), "    Σ: " + S]
    if kind == "var1m":         # any matrix of autocorrelations
        R = [[rng.choice([0.5, 0.75, -0.25, 0.375]) if i == j else rng.choice([0.0, 0.25, -0.25, 0.125]) / max(1, nm - 1) for j in range(nm)] for i in range(nm)]
        if nm > 1 and all(R[i][j] == R[j][i] for i in range(nm) for j in range(nm)):
            R[0][1] += 0.25
        return ["exogenous: !VAR1", "    ρ: [" + ", ".join(repr(r) for r in R) + "]", "    Σ: " + S]
    k = rng.choice([2, 3])
    V = [[rng.randint(-6, 6) / 16 for _ in range(nm)] for _ in range(k)]
    if rng.random() < 0.3:
        V[k - 1] = V[0]
    P = []
    for i in range(k):
        w = [rng.choice([0, 1, 2, 3]) for _ in range(k)]
        if not sum(w):
            w[rng.randrange(k)] = 1
        P.append([round(x / sum(w), 4) for x in w])
        P[i][0] = round(P[i][0] + 1 - sum(P[i]), 4)
    f = lambda a: "[" + ", ".join("[" + ", ".join(repr(float(x)) for x in r) + "]" for r in a) + "]"
    return ["exogenous: !MarkovChain", "    values: " + f(V), "    transitions: " + f(P)]


def gen_solvable(rng, sizes, bounds="some", exo=None, n=None, values=0, dom=None, defs=True, choice=False):
    """bounds: "none", "some", "all", "const".  Optional sequence of values."""
    names = POOL[:]
    names = [x for x in names if x not in ("bet", "beta")]
    rng.shuffle(names)
    take = lambda k: [names.pop() for _ in range(k)]
    sym = {g: [] for g in GROUPS}
    nm, ns, nx = sizes
    sym["exogenous"], sym["states"], sym["controls"], sym["parameters"] = take(nm), take(ns), take(nx), take(2)
    dom = dom or [rng.choice([(-1, 1), (0, 2), (1, 2), (-2, 0)]) for _ in range(ns)]
    dom = [(Fraction(a), Fraction(b)) for a, b in dom]
    P = [par(p) for p in sym["parameters"]]
    now = [var(v) for g in ("exogenous", "states", "controls") for v in sym[g]]
    D = []
    if defs and rng.random() < 0.6:
        D.append(dict(name=take(1)[0], expr=squash(rand_expr(rng, now + P, 2))))
    dn = [d["name"] for d in D]
    B = {}
    # transition: stays inside the domain when shocks and controls are moderate
    tr = []
    last = [var(v, -1) for g in ("exogenous", "states", "controls") for v in sym[g]] + [var(d, -1) for d in dn] + [var(v, 0) for v in sym["exogenous"]]
    for k, s in enumerate(sym["states"]):
        a, b = dom[k]
        h = (b - a) / 2
        rho = fr(rng, 0.25, 0.5)
        slack = (1 - rho) * h
        e = add(num((1 - rho) * (a + b) / 2) if a + b >= 0 else ["neg", num(-(1 - rho) * (a + b) / 2)], mul(rho, var(s, -1)),
                mul(slack / 2 * rng.choice([1, -1]), squash(rand_expr(rng, last + P, 2))))
        for v, t, w in ((rng.choice(sym["exogenous"]), 0, Fraction(1, 2)), (rng.choice(sym["exogenous"]), -1, Fraction(1, 4)), (rng.choice(sym["controls"]), -1, Fraction(1, 8))):
            e = add(e, mul(w * slack * rng.choice([1, -1]), var(v, t)))
        tr.append(dict(rhs=e))
    B["transition"] = tr
    # arbitrage: x = something contracting in next period's controls
    lv = [var(v, t) for t in (0, 1) for g in ("exogenous", "states") for v in sym[g]] + [var(v, 1) for v in sym["controls"]] + [var(d, t) for d in dn for t in (0, 1)]
    ar, bounds_ = [], []
    for k, x in enumerate(sym["controls"]):
        y = rng.choice(sym["controls"])
        e = add(num(fr(rng, 0, 0.5)), mul(fr(rng, 0.25, 0.5) * rng.choice([1, -1]), var(y, 1)), mul(fr(rng, 0.25, 0.5) * rng.choice([1, 1, -1]), var(rng.choice(sym["states"]), rng.choice([0, 1]))),
                mul(fr(rng, 0.5, 1) * rng.choice([1, -1]), var(rng.choice(sym["exogenous"]), rng.choice([0, 1]))),
                mul(Fraction(1, 4), squash(rand_expr(rng, lv + P, 2))))
        if nx > 1:
            e = add(e, mul(Fraction(1, 8) * rng.choice([1, -1]), var(sym["controls"][(k + 1) % nx])))
        sc = rng.choice([Fraction(1), Fraction(2), Fraction(1, 2)])
        qn = dict(rhs=mul(sc, ["sub", var(x), e]))      # increasing in the control: well posed with its bounds
        w = bounds == "all" or (bounds in ("some", "const") and rng.random() < 0.7)
        if bounds in ("some", "const") and k == 0:
            w = True
        if w:
            lb = ["neg", num(fr(rng, 0, 0.5))]
            if bounds != "const":
                lb = add(lb, mul(fr(rng, 0, 0.125), var(rng.choice(sym["states"]))))
            if bounds != "const" and rng.random() < 0.5:
                lb = add(lb, mul(fr(rng, 0, 0.5), var(rng.choice(sym["exogenous"]))))
            ub = add(lb, num(fr(rng, 0.25, 1)))
            r = rng.random()
            if r < 0.2:
                lb = ["num", "-inf"]
            elif r < 0.4:
                ub = ["num", "inf"]
            bounds_.append(dict(lb=lb, ub=ub, written=True))
        else:
            bounds_.append(dict(lb=["num", "-inf"], ub=["num", "inf"]))
        ar.append(qn)
    if bounds == "none":
        bounds_ = []
    B["arbitrage"] = ar
    if values:
        sym["values"] = take(values)
        va = []
        for v in sym["values"]:
            w = rng.choice(sym["values"])
            e = add(rand_expr(rng, [squash(l) if rng.random() < 0.5 else l for l in now + [var(z, 1) for g in ("exogenous", "states", "controls") for z in sym[g]]] + P, 2),
                    mul(fr(rng, 0.5, 0.75) * rng.choice([1, -1]) if len(sym["values"]) > 1 else fr(rng, 0.5, 0.875), var(w, 1)))
            e = add(e, mul(rng.choice([1, -1]) * fr(rng, 0.5, 1), squash(var(rng.choice(sym["controls"]), 1))))
            va.append(dict(rhs=e))
        B["value"] = va
    beta = None
    if choice:      # a concave choice: rewards minus the square of the distance to some target
        sym["values"], sym["rewards"] = take(1), take(1)
        sym["parameters"].append("beta")
        beta = fr(rng, 0.25, 0.875)
        ns_ = [var(v) for g in ("exogenous", "states") for v in sym[g]]
        r = squash(rand_expr(rng, ns_ + P, 2))
        for x in sym["controls"]:
            h = add(squash(rand_expr(rng, ns_ + P, 1)), mul(fr(rng, 0.25, 0.5), rng.choice(ns_)))
            d = ["sub", var(x), h]
            r = ["sub", r, mul(fr(rng, 1, 2, 4), ["mul", d, d])]
        B["felicity"] = [dict(rhs=r)]
        B["value"] = [dict(rhs=add(r, ["mul", par("beta"), var(sym["values"][0], 1)]))]
    sb = lambda e: {"-inf": "-inf", "inf": "inf"}.get(e[1] if e[0] == "num" else None) or top(e, rng)
    Y = ["name: generated", "", "symbols:"]
    for g in GROUPS:
        if sym[g]:
            Y.append("    %s: [%s]" % (g, ", ".join(sym[g])))
    if D:
        Y += ["", "definitions: |"] + ["    %s[t] = %s" % (d["name"], top(d["expr"], rng, bare_ok=False)) for d in D]
    Y += ["", "equations:"]
    order = list(B)
    rng.shuffle(order)
    TG = dict(transition="states", value="values", felicity="rewards")
    for b in order:
        Y.append("    %s: |" % b)
        for i, qn in enumerate(B[b]):
            if b == "arbitrage":
                s = top(qn["rhs"], rng)
                if "lhs" in qn:
                    s = top(qn["lhs"], rng) + " = " + s
                if bounds_ and "written" in bounds_[i]:
                    s += "   ⟂ %s <= %s[t] <= %s" % (sb(bounds_[i]["lb"]), sym["controls"][i], sb(bounds_[i]["ub"]))
            else:
                s = "%s[t] = %s" % (sym[TG[b]][i], top(qn["rhs"], rng))
            Y.append("        " + s)
    Y += ["", "calibration:"]
    for g in GROUPS:
        for k, v in enumerate(sym[g]):
            c = Fraction(0) if g in ("exogenous",) else ((dom[k][0] + dom[k][1]) / 2 if g == "states" else fr(rng, 0, 0.75, 8))
            if v == "beta":
                c = beta
            Y.append("    %s: %s" % (v, repr(float(c))))
    Y += [""] + (exo or exo_lines(rng, nm, "normal"))
    Y += ["", "domain:"] + ["    %s: [%r, %r]" % (s, float(dom[k][0]), float(dom[k][1])) for k, s in enumerate(sym["states"])]
    n = n or [rng.choice([4, 5]) for _ in sym["states"]]
    Y += ["", "options:", "    grid: !Cartesian", "        n: [%s]" % ", ".join(map(str, n))]
    for z in bounds_:
        z.pop("written", None)
    return dict(symbols=sym, defs=D, blocks=B, bounds=bounds_, yaml="\n".join(Y) + "\n", dom=[[float(a), float(b)] for a, b in dom], n=list(n))


def load(rec, name, A):
    fn = os.path.abspath("%s_%d_%d.yaml" % (name.replace("/", "_"), os.getpid(), rec.n))
    open(fn, "w").write(A["yaml"])
    A["file"] = fn
    o, model = rec.call(lambda: yaml_import(fn, check=False))
    p = model.calibration["parameters"] if o == "ok" else []
    rec.event("Model", outcome=o, symbols=A["symbols"], defs=A["defs"], blocks=A["blocks"], bounds=A["bounds"], p=qa(p))
    return model


def process(dp):
    """nodes and, for each of them, the atoms [weight, value, index] of next period's value"""
    nodes, atoms = [], []
    for i in range(max(dp.n_nodes, 1)):
        nodes.append(qa(np.asarray(dp.node(i))))
        atoms.append([dict(w=q(float(dp.iweight(i, j))), m=qa(np.asarray(dp.inode(i, j))), j=j) for j in range(dp.n_inodes(i))])
    return nodes, atoms


def rule_of(A, dp, method):
    """description of the interpolating rules on the model's grid"""
    R = dict(kind="grid", method=method, uniform=True, min=qa([d[0] for d in A["dom"]]), max=qa([d[1] for d in A["dom"]]), n=A["n"])
    g = dp.grid
    t = type(g).__name__
    if t == "EmptyGrid":
        R["exo"] = "empty"
    elif t == "UnstructuredGrid":
        R["exo"] = "chain"
    else:
        R.update(exo="grid", mmin=qa(np.asarray(g.min)), mmax=qa(np.asarray(g.max)), mn=[int(k) for k in g.n])
    return R


def at_nodes(dr, dp, s):
    """values of a rule at the nodes: one table per exogenous node"""
    if type(dp.grid).__name__ == "EmptyGrid":
        return np.array([dr.eval_s(s)])
    return np.array([dr.eval_is(i, s) for i in range(dp.n_nodes)])


def guesses(rng, npr, A, model, dp, endo, method):
    """(how, dr0, values at the nodes)"""
    nm, ns, nx = (len(A["symbols"][g]) for g in ("exogenous", "states", "controls"))
    s = endo.nodes
    N = len(s)
    K = max(dp.n_nodes, 1)
    how = rng.choice(["none", "none", "constant", "bitaylor", "grid", "custom", "result"])
    if how == "none":
        return how, None, np.tile(model.calibration["controls"], (K, N, 1))
    if how == "constant":
        x = npr.integers(-4, 8, nx) / 16
        return how, ConstantDecisionRule(x), np.tile(x, (K, N, 1))
    if how == "bitaylor":
        B = lambda *sh: npr.integers(-4, 4, sh) / 16
        mb, sb, xb, Cm, Cs = B(nm), B(ns), B(nx), B(nx, nm), B(nx, ns)
        V = np.array([[xb + Cm @ (np.asarray(dp.node(i)) - mb) + Cs @ (z - sb) for z in s] for i in range(K)])
        return how, BivariateTaylor(mb, sb, xb, Cm, Cs), V
    if how == "custom":
        a = [float(rng.randint(-4, 4)) / 16 for _ in range(nx)]
        d = {c: "%r + %s/8 - %s/4" % (a[k], A["symbols"]["states"][0], A["symbols"]["exogenous"][0]) for k, c in enumerate(A["symbols"]["controls"])}
        V = np.array([[[a[k] + z[0] / 8 - np.asarray(dp.node(i))[0] / 4 for k in range(nx)] for z in s] for i in range(K)])
        return how, CustomDR(d, model), V
    V = npr.integers(-4, 8, (K, N, nx)) / 16
    dr = DecisionRule(dp.grid, endo, dprocess=dp, interp_method=method, values=V)
    if how == "result":
        return how, TimeIterationResult(dr, 0, False, dp, False, 0.0, 0.0, None, None), V
    return how, dr, V


ECONOMY = """name: economy
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [a, c, lo, hi]
equations:
    arbitrage: |
        x[t] - (a + c*x[t+1])   ⟂ lo <= x[t] <= hi
    transition: |
        s[t] = s[t-1]/2 + e[t]
calibration:
    s: 0
    x: 0.25
    e: 0
    a: 0
    c: 0
    lo: -1
    hi: 1
exogenous: !MarkovChain
    values: [[-0.1], [0.1]]
    transitions: [[0.5, 0.5], [0.25, 0.75]]
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def economies(rec, k, n, solve):
    """the economies enumerated by MC_Equilibrium"""
    import json
    B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "economies.json")))
    f = lambda z: {"-inf": -1e30, "inf": 1e30}.get(z) if z in ("-inf", "inf") else float(Fraction(z))
    fn = "economy_%d.yaml" % k
    open(fn, "w").write(ECONOMY)
    model = yaml_import(fn, check=False)
    for b in B[k::n]:
        model.set_calibration(a=float(b["a"]), c=f(b["c"]), lo=f(b["lb"]), hi=f(b["ub"]))
        o, r = rec.call(lambda: solve(model))
        d = dict(outcome=o, b=b)
        if o == "ok":
            d.update(conv=bool(r.x_converged), x=q(r.dr.eval_is(0, np.array([[0.3]]))[0, 0]), y=q(r.dr.eval_is(1, np.array([[-0.6]]))[0, 0]))
        rec.event("Economy", **d)
