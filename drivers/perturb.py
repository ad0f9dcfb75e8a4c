"""X01: first-order solutions of random models and of linear models with chosen roots."""
import sys, os, json, warnings
from fractions import Fraction as F
import numpy as np
from rec import run_scenarios, q, qa
from sgen import gen_solvable, exo_lines, load
from lgen import linear, pick, IN, OUT
from dolo import yaml_import
from dolo.algos.perturbation import perturb
from dolo.numeric.distribution import *

thorough = os.environ["VERIF_TIER"] == "thorough"


def observe(rec, model, how, A, ss=None, supported=True, roots=(), sure=True, **kw):
    calib = ss if ss is not None else model.calibration
    m, s, x = (np.array(calib[g], dtype=float) for g in ("exogenous", "states", "controls"))
    a = dict(kw)
    if ss is not None:
        a["steady_state"] = ss
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        o, r = rec.call(lambda: perturb(model, verbose=False, **a))
    warned = any("onvergent" in str(w.message) for w in W)
    d = dict(outcome=o, how=how, A=qa(A), m=qa(m), s=qa(s), x=qa(x), supported=supported, roots=[str(z) for z in roots], warned=warned, sure=sure)
    if o == "ok":
        dr = r.dr
        C = coefficients(dr, len(A))
        d.update(C=qa(C), at=qa(np.asarray(dr(m, s)).ravel()), stable=bool(r.stable), unique=bool(r.unique))
    rec.event("Perturb", **d)
    if o == "ok" and rec.rng.random() < 0.6:
        o2, r2 = rec.call(lambda: perturb(model, **{**a, "details": False}))
        rec.event("Same", outcome=o2, C=qa(coefficients(r2, len(A), rec.rng)) if o2 == "ok" else [])


def coefficients(dr, nm, modes=None):
    """differences of the rule's values: it is linear"""
    m0, s0 = np.array(dr.m_bar, float), np.array(dr.s_bar, float)
    f = lambda m, s: np.asarray(dr(m, s)).ravel()
    if modes is not None:
        # all the points at once: arrays of shocks and states, or one of them given once
        pts = [(m0, s0)] + [(m0 + e, s0) for e in np.eye(len(m0))[:nm]] + [(m0, s0 + e) for e in np.eye(len(s0))]
        P, Q, k = np.array([p for p, _ in pts]), np.array([p for _, p in pts]), 1 + nm
        mode = modes.choice(["both", "parts", "both"])
        v = np.asarray(dr(P, Q)) if mode == "both" else np.concatenate([np.asarray(dr(P[:k], s0)), np.asarray(dr(m0, Q[k:]))])
        return (v[1:] - v[0]).T if v.ndim == 2 and len(v) == len(pts) else np.zeros((0, 0))
    b = f(m0, s0)
    cols = []
    for k in range(nm):
        e = np.zeros(len(m0)); e[k] = 1
        cols.append(f(m0 + e, s0) - b)
    for k in range(len(s0)):
        e = np.zeros(len(s0)); e[k] = 1
        cols.append(f(m0, s0 + e) - b)
    return np.array(cols).T


def autocorrelation(model):
    from dolo.numeric.processes import VAR1
    return np.array(model.exogenous.ρ) if isinstance(model.exogenous, VAR1) else np.zeros((0, 0))


def random_model(name, sizes, exo):
    def run(rec):
        rng = rec.rng
        for _ in range(6 if thorough else 2):
            A = gen_solvable(rng, sizes, rng.choice(["none", "some"]), exo_lines(rng, sizes[0], exo))
            model = load(rec, name, A)
            if model is None:
                return
            sup = exo in ("normal", "unormal", "var1", "var1m")
            observe(rec, model, ["calibration", exo], autocorrelation(model), supported=sup)
            if not sup:
                continue
            for k in range(3):
                # around another point
                ss = dict(exogenous=rec.nprng.integers(-4, 5, sizes[0]) / 32.0, states=np.array(model.calibration["states"]) + rec.nprng.integers(-4, 5, sizes[1]) / 16.0,
                          controls=rec.nprng.integers(-4, 8, sizes[2]) / 16.0, parameters=np.array(model.calibration["parameters"]))
                observe(rec, model, ["given point", exo], autocorrelation(model), ss=ss)
    return run


def found(name, sizes, exo):
    """the steady state is found first"""
    def run(rec):
        from dolo.algos.steady_state import find_steady_state
        rng = rec.rng
        for _ in range(3 if thorough else 1):
            A = gen_solvable(rng, sizes, "none", exo_lines(rng, sizes[0], exo))
            model = load(rec, name, A)
            if model is None:
                return
            o, ss = rec.call(lambda: find_steady_state(model))
            if o != "ok":
                continue
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter("always")
                o, r = rec.call(lambda: perturb(model, verbose=False, solve_steady_state=True))
            m, s, x = (np.array(ss[g], float) for g in ("exogenous", "states", "controls"))
            a = autocorrelation(model)
            d = dict(outcome=o, how=["found", exo], A=qa(a), m=qa(m), s=qa(s), x=qa(x), supported=True, sure=True, roots=[], warned=any("onvergent" in str(w.message) for w in W))
            if o == "ok":
                d.update(C=qa(coefficients(r.dr, len(a))), at=qa(np.asarray(r.dr(m, s)).ravel()), stable=bool(r.stable), unique=bool(r.unique))
            rec.event("Perturb", **d)
    return run


def linear_model(name, ns, nx, kind, var1=False):
    def run(rec):
        rng = rec.rng
        for _ in range(4 if thorough else 2):
            if kind == "unique":
                rs, ru = pick(rng, ns, IN), pick(rng, nx, OUT)
            elif kind == "swapped":         # the stable rule is another one
                ins, outs = rng.sample(IN, ns), rng.sample(OUT, nx)      # distinct
                rs, ru = [(z, "real") for z in ins[1:] + outs[:1]], [(z, "real") for z in outs[1:] + ins[:1]]
            elif kind == "many":
                rs, ru = pick(rng, ns, IN[:3]), pick(rng, nx, [F(7, 8), F(9, 10), F(5, 6)])
            elif kind == "none":
                rs, ru = pick(rng, ns, [F(11, 10), F(5, 4)]), pick(rng, nx, [F(3, 2), F(2), F(3)])
            A, mods = linear(rng, rs, ru, var1)
            model = load(rec, name, A)
            if model is None:
                return
            if var1:
                mods = mods + [F(3, 4)]
            ac = autocorrelation(model)
            observe(rec, model, [kind, "var1" if var1 else "iid"], ac, roots=mods, sure=kind != "swapped")
    return run


SYSTEM = """name: system
symbols:
    exogenous: [e]
    states: [s]
    controls: [x]
    parameters: [gz, gx, fz, fx, ffz]
equations:
    arbitrage: |
        fz*s[t] + fx*x[t] + ffz*s[t+1] + x[t+1]
    transition: |
        s[t] = gz*s[t-1] + gx*x[t-1] + e[t]
calibration:
    s: 0
    x: 0
    e: 0
    gz: 0
    gx: 0
    fz: 0
    fx: 0
    ffz: 0
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def systems(rec, k, n):
    B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "systems.json")))
    fn = "system_%d.yaml" % k
    open(fn, "w").write(SYSTEM)
    model = yaml_import(fn, check=False)
    for b in B[k::n]:
        model.set_calibration(**{a: float(F(b[c])) for a, c in (("gz", "Gz"), ("gx", "Gx"), ("fz", "Fz"), ("fx", "Fx"), ("ffz", "FZ"))})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o, r = rec.call(lambda: perturb(model, verbose=False))
        d = dict(outcome=o, b=b)
        if o == "ok":
            d.update(C=qa(coefficients(r.dr, 0)), stable=bool(r.stable), unique=bool(r.unique))
        rec.event("System", **d)


SC = []
for r in range(6 if thorough else 1):
    for j, (z, e) in enumerate([((1, 1, 1), "unormal"), ((1, 2, 1), "normal"), ((2, 1, 2), "normal"), ((2, 2, 2), "var1m"), ((1, 1, 1), "var1"), ((1, 2, 2), "var1"), ((2, 1, 1), "var1m"), ((3, 1, 1), "var1m"), ((1, 1, 1), "ar1"), ((1, 1, 1), "chain")]):
        n = "model/%s/%d.%d" % (e, j, r)
        SC.append((n, random_model(n, z, e)))
    for j, (ns, nx, k, v) in enumerate([(1, 1, "unique", 0), (2, 1, "unique", 0), (2, 2, "unique", 0), (1, 2, "unique", 1), (3, 1, "unique", 0), (2, 2, "swapped", 0), (2, 1, "swapped", 1), (1, 2, "swapped", 0),
                                        (1, 1, "many", 0), (2, 1, "many", 0), (2, 2, "many", 0), (1, 2, "many", 1), (1, 1, "none", 0), (2, 1, "none", 0), (2, 2, "none", 0), (1, 2, "none", 0),
                                        (1, 1, "unique", 1), (2, 1, "swapped", 0), (1, 3, "unique", 0), (2, 2, "unique", 1), (3, 2, "unique", 0), (2, 3, "unique", 0), (3, 1, "many", 0), (1, 3, "none", 0)]):
        n = "linear/%s/%d.%d" % (k, j, r)
        SC.append((n, linear_model(n, ns, nx, k, bool(v))))
    for j in range(4):
        n = "found/%d.%d" % (j, r)
        SC.append((n, found(n, [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2)][j], ["unormal", "normal", "var1m", "normal"][j])))
for j in range(8):
    SC.append(("systems/%d" % j, lambda rec, j=j: systems(rec, j, 8)))
sys.exit(run_scenarios(SC))
