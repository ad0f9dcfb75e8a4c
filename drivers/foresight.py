"""F01: perfect foresight simulations."""
import os, json, warnings
from fractions import Fraction as F
import numpy as np
import pandas as pd
from rec import run_scenarios, q, qa
from sgen import gen_solvable, load, exo_lines
from dolo import yaml_import
from dolo.algos.perfect_foresight import deterministic_solve
from dolo.algos.steady_state import find_steady_state

thorough = os.environ["VERIF_TIER"] == "thorough"


def solve(rec, model, **kw):
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        o, r = rec.call(lambda: deterministic_solve(model, **kw))
    return o, r, not any("converge" in str(w.message).lower() for w in W)


def event(rec, model, A, how, T, series, s0, arg=None, start=None, expect="path", same=None, exact=True, **kw):
    """series: per exogenous variable the list of its values, [] when it keeps its calibrated value"""
    if "some" in how:
        expect = "any"
    if arg is not None:
        kw["s0"] = arg
    tol = kw.get("tol", 1e-6)
    keep = bool(kw.get("keep_steady_state")) and kw.get("exogenous") is not None
    before = {n: float(v) for n, v in model.calibration.flat.items()}
    snap = json.dumps(repr(kw))
    ways = {"exogenous": "shocks", "s0": "s1"}       # the former names of the arguments
    o, r, claims = solve(rec, model, T=T, verbose=False, **{(ways[k] if k in ways and rec.rng.random() < 0.15 else k): v for k, v in kw.items()})
    d = dict(outcome=o, how=how, T=T, series=series, calib=qa(model.calibration["exogenous"]), s0=s0, keep=keep, tol=q(tol), claims=bool(claims),
             bounded=bool(A["bounds"]) and not kw.get("ignore_constraints", False), p=qa(model.calibration["parameters"]), expect=expect,
             exact=exact, start=start or [],
             unchanged={n: float(v) for n, v in model.calibration.flat.items()} == before and snap == json.dumps(repr(kw)))
    if o == "ok":
        d.update(columns=list(r.columns), index=[int(i) for i in r.index], rows=qa(r.values))
    if same is not None:
        d["same"] = same
    rec.event("Path", **d)
    return r


def shape_series(rng, npr, nm, T, amp):
    out = []
    for k in range(nm):
        L = rng.choice([1, 2, 3, T, T + 1, T + 3])
        v = list(npr.integers(-8, 9, L) / 8 * amp)
        if rng.random() < 0.4:
            v[0] = 0.0
        out.append([float(z) for z in v])
    return out


def steady_of(rec, model, m):
    o, ss = rec.call(lambda: find_steady_state(model, m=np.array(m)))
    return None if o != "ok" else [qa(np.array(ss["states"], float)), qa(np.array(ss["controls"], float))]


def given_series(sizes, bounds, reps):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        nm, ns, nx = sizes
        for rep in range(reps):
            A = gen_solvable(rng, sizes, bounds, exo_lines(rng, nm, "normal"))
            model = load(rec, rec.sc, A)
            if model is None:
                return
            X = A["symbols"]["exogenous"]
            if rng.random() < 0.3:
                model.set_calibration(**{X[0]: 0.125})
            T = rng.choice([2, 3, 6, 9])
            amp = rng.choice([0.125, 0.5])
            ser = shape_series(rng, npr, nm, T, amp)
            cal = [float(z) for z in model.calibration["exogenous"]]
            S = [qa(s) for s in ser]
            st = steady_of(rec, model, [s[0] for s in ser])
            if st is None:
                continue
            base = dict(T=T, series=S, s0=st[0], start=st, exact=False)
            # the same series in every form
            event(rec, model, A, ["dict", bounds], **base, exogenous={k: s for k, s in zip(X, ser)})
            L = max(map(len, ser))
            full = np.array([s + [s[-1]] * (L - len(s)) for s in ser]).T
            last = 1
            event(rec, model, A, ["array", bounds], **base, exogenous=full, same=last)
            event(rec, model, A, ["list", bounds], **base, exogenous=[list(r) for r in full] if nm > 1 or rng.random() < .5 else [r[0] for r in full], same=last + 1)
            event(rec, model, A, ["frame", bounds], **base, exogenous=pd.DataFrame(full, columns=X)[rng.sample(X, nm)], same=last + 2)
            r = event(rec, model, A, ["keep", bounds], **base, exogenous={k: np.array(s) for k, s in zip(X, ser)}, keep_steady_state=True)
            if r is not None:
                g = r.copy()
                event(rec, model, A, ["guess", bounds], **base, exogenous=full, initial_guess=rng.choice([g, g.iloc[1:]]), same=1)
            if A["bounds"]:
                event(rec, model, A, ["free", bounds], **base, exogenous=full, ignore_constraints=True)
                if T <= 3:
                    event(rec, model, A, ["lmmcp", bounds], **base, exogenous=full, solver="lmmcp")
            # one of them only
            k = rng.randrange(nm)
            S1 = [S[j] if j == k else [] for j in range(nm)]
            st1 = steady_of(rec, model, [ser[j][0] if j == k else cal[j] for j in range(nm)])
            if st1 is not None:
                event(rec, model, A, ["partial", bounds], T=T, series=S1, s0=st1[0], start=st1, exact=False, exogenous={X[k]: ser[k]})
            # precision, limits
            event(rec, model, A, ["precise", bounds], **base, exogenous=full, tol=1e-10)
            event(rec, model, A, ["limited", bounds], **base, exogenous=full, maxit=rng.choice([1, 2]), expect="any")
            event(rec, model, A, ["limited", bounds], **base, exogenous=full, maxit=rng.choice([1, 2]), expect="any", ignore_constraints=True)
    return f


def given_state(sizes, bounds, reps):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        nm, ns, nx = sizes
        for rep in range(reps):
            A = gen_solvable(rng, sizes, bounds, exo_lines(rng, nm, "normal"))
            model = load(rec, rec.sc, A)
            if model is None:
                return
            X, Y = A["symbols"]["exogenous"], A["symbols"]["states"]
            if rng.random() < 0.3:
                model.set_calibration(**{X[0]: 0.125})
            cal = [float(z) for z in model.calibration["exogenous"]]
            sc = [float(z) for z in model.calibration["states"]]
            for T in (2, rng.choice([4, 8])):
                s0 = np.array([rng.uniform(*d) for d in A["dom"]])
                C = [[] for _ in X]
                event(rec, model, A, ["nothing", bounds], T=T, series=C, s0=qa(np.array(sc)))
                event(rec, model, A, ["state", bounds], T, C, qa(s0), s0)
                event(rec, model, A, ["state by names", bounds], T, C, qa(s0), {k: float(v) for k, v in zip(Y, s0)}, same=1)
                k = rng.randrange(ns)
                part = np.array([s0[j] if j == k else sc[j] for j in range(ns)])
                event(rec, model, A, ["one state", bounds], T, C, qa(part), {Y[k]: float(s0[k])})
                m0 = npr.integers(-4, 5, nm) / 16
                Z = [[q(float(a)), q(b)] for a, b in zip(m0, cal)]
                event(rec, model, A, ["shock", bounds], T, Z, qa(np.array(sc)), m0=m0)
                event(rec, model, A, ["both", bounds], T, Z, qa(s0), s0, m0={k: float(v) for k, v in zip(X, m0)})
                event(rec, model, A, ["free", bounds], T, Z, qa(s0), s0, m0=m0, ignore_constraints=True)
    return f


VARYING = """name: varying
symbols:
    exogenous: [e]
    states: [s]
    controls: [x, y]
    parameters: [a]
equations:
    arbitrage: |
        x[t] - 0.5*s[t] - 0.1*x[t+1] + 0.25%s
        y[t] - 0.25*s[t] - 0.1*y[t+1]%s
    transition: |
        s[t] = 0.5*s[t-1] + e[t] + a
calibration:
    s: 0
    x: 0
    y: 0
    e: 0
    a: 0
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [5]
"""


def varying(rec):
    B = ["", "  ⟂ -0.1 - s[t] <= %s[t] <= inf", "  ⟂ -inf <= %s[t] <= 0.1 + s[t]", "  ⟂ -0.1 <= %s[t] <= 0.1 + e[t]", "  ⟂ -1 <= %s[t] <= 1", "  ⟂ e[t] - 1 <= %s[t] <= s[t] + 1"]
    vary = [False, True, True, True, False, True]
    for i in range(6):
        for j in range(6):
            if not (vary[i] or vary[j]):
                continue
            fn = os.path.abspath("varying_%d_%d.yaml" % (i, j))
            open(fn, "w").write(VARYING % (B[i] % "x" if B[i] else "", B[j] % "y" if B[j] else ""))
            model = yaml_import(fn, check=False)
            for path in ([0.0, 0.25], [0.25, 0.0, 0.0], [0.0, 0.0, -0.25, 0.0]):
                o, r, c = solve(rec, model, exogenous={"e": path}, T=5, verbose=False)
                rec.event("Varying", outcome=o, how=[B[i], B[j], str(path)])


LINE = """name: line
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [a, b, c, d, lo, hi]
equations:
    arbitrage: |
        x[t] - (c*x[t+1] + d*s[t])   ⟂ lo <= x[t] <= hi
    transition: |
        s[t] = a*s[t-1] + b*x[t-1] + e[t]
calibration:
    s: 0
    x: 0
    e: 0
    a: 0
    b: 0
    c: 0
    d: 0
    lo: -1
    hi: 1
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def replay(k, n):
    def f(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "foresights.json")))
        fl = lambda z: {"-inf": -1e30, "inf": 1e30}[z] if z in ("-inf", "inf") else float(F(z))
        fn = os.path.abspath("line_%d.yaml" % k)
        open(fn, "w").write(LINE)
        model = yaml_import(fn, check=False)
        for b in B[k::n]:
            model.set_calibration(a=fl(b["a"]), b=fl(b["b"]), c=fl(b["c"]), d=fl(b["d"]), lo=fl(b["lb"]), hi=fl(b["ub"]))
            kw = dict(exogenous={"e": [fl(z) for z in b["e"]]}) if b["s0"] == "steady" else dict(s0=np.array([fl(b["s0"])]))
            ways = [{}]
            if b["lb"] == "-inf":
                ways.append(dict(ignore_constraints=True))
            else:
                ways.append(dict(initial_guess=np.array([[0, fl(b["lb"])]] * 3)))
            for w in ways:
                o, r, c = solve(rec, model, T=2, verbose=False, tol=1e-9, **kw, **w)
                d = dict(outcome=o, claims=c, b=b)
                if o == "ok":
                    d.update(s=qa(r["s"].values), x=qa(r["x"].values))
                rec.event("Replay", **d)
    return f


S = []
n = 6 if thorough else 1
for r in range(6 if thorough else 2):
    for b in ("none", "const", "some"):
        for z in [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2)]:
            S.append(("series/%s/%s/%d" % (b, "".join(map(str, z)), r), given_series(z, b, n)))
            if b != "some":
                S.append(("state/%s/%s/%d" % (b, "".join(map(str, z)), r), given_state(z, b, n)))
S.append(("varying", varying))
for k in range(8):
    S.append(("paths/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
