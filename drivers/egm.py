"""T03: the method of endogenous gridpoints."""
import sys, os, json
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa
from sgen import exo_lines, load, process, fr, add, mul, squash
from mgen import POOL, GROUPS, num, var, par, top, rand_expr, TARGET
from dolo import yaml_import
from dolo.algos.egm import egm
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule

thorough = os.environ["VERIF_TIER"] == "thorough"


def gen(rng, nm, exo, bounds):
    names = [x for x in POOL if x not in ("bet", "beta")]
    rng.shuffle(names)
    take = lambda k: [names.pop() for _ in range(k)]
    sym = {g: [] for g in GROUPS}
    for g, k in dict(exogenous=nm, states=1, controls=1, poststates=1, expectations=rng.choice([1, 1, 2]), parameters=2).items():
        sym[g] = take(k)
    s, x, a = sym["states"][0], sym["controls"][0], sym["poststates"][0]
    P = [par(p) for p in sym["parameters"]]
    D = []
    if rng.random() < 0.4:
        D.append(dict(name=take(1)[0], expr=squash(rand_expr(rng, [var(v) for g in ("exogenous", "states", "controls") for v in sym[g]] + P, 2))))
    dn = [d["name"] for d in D]
    E = lambda t: [var(v, t) for v in sym["exogenous"]]
    sg = lambda: rng.choice([1, -1])
    B = {}
    c0, R = num(fr(rng, 0, 1, 4)), fr(rng, 0.25, 1)
    w = mul(Fraction(1, 2) * sg(), rng.choice(E(0)))
    u = mul(Fraction(1, 4) * sg(), rng.choice(E(-1)))
    n = mul(Fraction(1, 16) * sg(), squash(rand_expr(rng, E(-1) + E(0) + [var(a, -1)] + P, 2)))
    B["half_transition"] = [dict(rhs=add(c0, mul(R, var(a, -1)), w, u, n))]
    B["transition"] = [dict(rhs=add(c0, mul(R, ["sub", var(s, -1), var(x, -1)]), w))]
    ex = []
    for _ in sym["expectations"]:
        l = E(1) + [var(s, 1), var(x, 1)] + [var(d, 1) for d in dn]
        ex.append(dict(rhs=add(num(fr(rng, 0, 1)), mul(fr(rng, 0.25, 0.75) * sg(), var(x, 1)), mul(fr(rng, 0, 0.5) * sg(), var(s, 1)), mul(fr(rng, 0.25, 0.5) * sg(), rng.choice(E(1))),
                               mul(Fraction(1, 4), squash(rand_expr(rng, l + P, 2))))))
    B["expectation"] = ex
    z = [var(e) for e in sym["expectations"]]
    e = add(num(fr(rng, 0, 0.5)), mul(fr(rng, 0.125, 0.5), var(a)), mul(fr(rng, 0, 0.5) * sg(), rng.choice(E(0))),
            mul(Fraction(1, 16), squash(rand_expr(rng, E(0) + [var(a)] + z + P, 2))))
    for y in z:
        e = add(e, mul(fr(rng, 0.25, 0.5) * sg(), y))
    B["direct_response_egm"] = [dict(rhs=e)]
    B["reverse_state"] = [dict(rhs=add(var(a), var(x), mul(Fraction(1, 8) * sg(), rng.choice(E(0))), mul(fr(rng, 0, 0.25), P[0]) if rng.random() < 0.5 else num(0)))]
    B["arbitrage"] = [dict(rhs=["sub", add(var(x), mul(Fraction(1, 4), var(rng.choice(E(1))[1], 1))), add(mul(Fraction(1, 2), var(x, 1)), mul(Fraction(1, 4), var(s)))])]
    bd = []
    if bounds != "none":
        lb = add(["neg", num(fr(rng, 0, 1))], mul(fr(rng, 0, 0.25), var(s)))
        if rng.random() < 0.6:
            lb = add(lb, mul(fr(rng, 0.25, 0.5), rng.choice(E(0))))
        ub = add(lb, num(fr(rng, 0.5, 2)), mul(fr(rng, 0, 0.25), var(s)) if bounds == "all" else num(0))
        r = rng.random()
        bd = [dict(lb=["num", "-inf"] if r < 0.2 else lb, ub=["num", "inf"] if r > 0.8 else ub)]
    sb = lambda e: {"-inf": "-inf", "inf": "inf"}.get(e[1] if e[0] == "num" else None) or top(e, rng)
    Y = ["name: generated", "symbols:"] + ["    %s: [%s]" % (g, ", ".join(sym[g])) for g in GROUPS if sym[g]]
    if D:
        Y += ["definitions: |"] + ["    %s[t] = %s" % (d["name"], top(d["expr"], rng, bare_ok=False)) for d in D]
    Y += ["equations:"]
    order = list(B)
    rng.shuffle(order)
    for b in order:
        Y.append("    %s: |" % b)
        for i, k in enumerate(B[b]):
            t = top(k["rhs"], rng)
            if b == "arbitrage":
                t += "   ⟂ %s <= %s[t] <= %s" % (sb(bd[0]["lb"]), x, sb(bd[0]["ub"])) if bd else ""
            else:
                t = "%s[t] = %s" % (sym[TARGET[b]][i], t)
            Y.append("        " + t)
    Y += ["calibration:"]
    for g in GROUPS:
        for v in sym[g]:
            c = Fraction(0) if g == "exogenous" else fr(rng, 0.125, 1, 8)
            Y.append("    %s: %r" % (v, float(c)))
    Y += exo_lines(rng, nm, exo)
    dom = [[0.0, float(rng.choice([2, 3, 4]))]]
    N = [rng.choice([4, 5, 7])]
    Y += ["domain:", "    %s: [%r, %r]" % (s, *dom[0]), "options:", "    grid: !Cartesian", "        n: [%d]" % N[0]]
    return dict(symbols=sym, defs=D, blocks=B, bounds=bd, yaml="\n".join(Y) + "\n", dom=dom, n=N)


def first(rng, npr, A, model, dp, endo, iid):
    """(how, rule for the code, description, values)"""
    K, N = max(dp.n_nodes, 1), len(endo.nodes)
    how = rng.choice(["none", "none", "constant", "grid", "function"])
    if how in ("none", "constant"):
        x0 = npr.integers(-4, 12, 1) / 16 if how == "constant" else np.array(model.calibration["controls"])
        return how, ConstantDecisionRule(x0) if how == "constant" else None, dict(kind="constant", x0=qa(x0)), []
    lo, hi = A["dom"][0]
    n = len(endo.nodes) if how == "grid" else 2
    V = npr.integers(-4, 12, (K, n, 1)) / 16
    R = dict(kind="grid", method="linear", uniform=True, min=qa([lo]), max=qa([hi]), n=[n], exo="empty" if iid else "chain")
    if how == "grid":
        return how, DecisionRule(dp.grid, endo, dprocess=dp, interp_method="linear", values=V.copy()), R, V
    f = lambda i, s: (lambda v: v[0] + (s - lo) / (hi - lo) * (v[1] - v[0]))(V[0 if iid else i])
    return how, f, R, V


def solve(name, nm, exo, bounds):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A = gen(rng, nm, exo, bounds)
        model = load(rec, name, A)
        if model is None:
            return
        for rep in range(4 if thorough else 3):
            opts = {}
            given = rng.random() < 0.4
            if given:
                to = rng.choice(["mc", None])
                opts = dict(to=to) if to else {}
            grid, dp = model.discretize(dprocess_options=opts)
            endo = grid["endo"]
            nodes, atoms = process(dp)
            iid = type(dp.grid).__name__ == "EmptyGrid"
            how, dr0, R, X0 = first(rng, npr, A, model, dp, endo, iid)
            n = rng.choice([3, 4, 6])
            a = np.array(sorted(rng.sample(range(-4, 25), n))) / 8
            if rng.random() < 0.2:
                a = np.linspace(0, 3, n)
            maxit = rng.choice([1, 2, 3, 4, 6, 40, 40])
            kw = dict(a_grid=a, maxit=maxit)
            tol = rng.choice([1e-6, 1e-2, 1e-3, 1e-4])
            if tol != 1e-6 or rng.random() < 0.5:
                kw["η_tol"] = tol
            if dr0 is not None:
                kw["dr0"] = dr0
            if given:
                kw.update(grid=grid, dp=dp)
            if rng.random() < 0.3:
                kw["verbose"] = True
            keep = a.copy()
            o, r = rec.call(lambda: egm(model, **kw))
            d = dict(outcome=o, how=[exo, bounds, how, given, maxit], nodes=nodes, atoms=atoms, iid=iid, a=qa(keep), first=R, X0=qa(X0), maxit=maxit, tol=q(tol))
            if o == "ok":
                S = endo.nodes
                K = max(dp.n_nodes, 1)
                V = [r.dr.eval_s(S)] if iid else [r.dr.eval_is(i, S) for i in range(K)]
                pts = [(i, k) for i in range(K) for k in range(len(S))]
                d.update(min=qa([A["dom"][0][0]]), max=qa([A["dom"][0][1]]), n=A["n"], iterations=int(r.iterations), converged=bool(r.a_converged), err=q(r.err), rtol=q(r.a_tol),
                         intact=bool(np.array_equal(a, keep)), points=[dict(i=i, n=k, x=q(V[i][k, 0])) for i, k in rng.sample(pts, min(12, len(pts)))])
            rec.event("Solve", **d)
        if exo in ("var1", "ar1"):
            g, dp = model.discretize(dprocess_options=dict(to="gdp"))
            for d in (dict(), ) if exo == "var1" else (dict(),):
                o, r = rec.call(lambda: egm(model, a_grid=np.linspace(0, 2, 4), grid=g, dp=dp, maxit=3))
                rec.event("Refuse", outcome=o, what="shocks on a grid")
        o, r = rec.call(lambda: egm(model, maxit=3))
        rec.event("Refuse", outcome=o, what="no grid for post-states")
    return run


SAVINGS = """name: savings
symbols:
    exogenous: [y]
    states: [w]
    controls: [c]
    poststates: [a]
    expectations: [e]
    parameters: [b, r, q1, q2, y1, y2]
equations:
    arbitrage: |
        c[t] - b*c[t+1]
    transition: |
        w[t] = r*(w[t-1] - c[t-1]) + y[t]
    half_transition: |
        w[t] = r*a[t-1] + y[t]
    expectation: |
        e[t] = b*c[t+1]
    direct_response_egm: |
        c[t] = e[t]
    reverse_state: |
        w[t] = a[t] + c[t]
calibration: {y: 0, w: 0, c: 0.5, a: 0, e: 0, b: 0.5, r: 1, q1: 0.5, q2: 0.5, y1: 0, y2: 1}
exogenous: !MarkovChain
    values: [[y1], [y2]]
    transitions: [[q1, 1-q1], [q2, 1-q2]]
domain:
    w: [-1, 4]
options:
    grid: !Cartesian
        n: [6]
"""


def savings(k, n):
    def run(rec):
        rng = rec.rng
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "savings.json")))
        f = lambda z: float(Fraction(z))
        open("savings_%d.yaml" % k, "w").write(SAVINGS)
        m = yaml_import("savings_%d.yaml" % k, check=False)
        for b in B[k::n]:
            m.set_calibration(b=f(b["b"]), r=f(b["r"]), y1=f(b["y"][0]), y2=f(b["y"][1]), q1=f(b["q"][0]), q2=f(b["q"][1]))
            K, D = [f(z) for z in b["K0"]], [f(z) for z in b["D0"]]
            a = rng.choice([np.array([-1.0, 0.0, 2.0]), np.array([0.0, 0.5]), np.array([-2.0, 0.25, 1.0, 5.0])])
            o, r = rec.call(lambda: egm(m, dr0=lambda i, s: K[i] * s + D[i], a_grid=a, maxit=b["n"], η_tol=1e-30))
            rec.event("Saved", outcome=o, b=b, x=[dict(i=i + 1, w=str(w), x=q(r.dr.eval_is(i, np.array([[float(w)]]))[0, 0])) for i in (0, 1) for w in (-1, 0, 3)] if o == "ok" else [])
    return run


Z = [(1, "chain", "all"), (1, "normal", "some"), (2, "chain", "some"), (1, "ar1", "all"), (2, "normal", "all"), (1, "chain", "none"), (1, "unormal", "all"), (1, "var1", "some")]
SC = []
for r in range(12 if thorough else 2):
    for j in range(8):
        n = "solve/%s/%d.%d" % (Z[j][1], j, r)
        SC.append((n, solve(n, *Z[j])))
for j in range(8):
    SC.append(("savings/%d" % j, savings(j, 8)))
sys.exit(run_scenarios(SC))
