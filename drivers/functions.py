import sys, os, glob
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa, shape
from mgen import gen, SPECS, GROUPS
import mparse
import dolo
from dolo import yaml_import


def import_text(rec, text, tag):
    fn = os.path.abspath("m_%s_%d.yaml" % (tag.replace("/", "_"), os.getpid()))
    with open(fn, "w") as f:
        f.write(text)
    return rec.call(yaml_import, fn)


def signature(b):
    sp = dict(SPECS)
    s = list(sp[b]) if b in sp else []
    if b == "value":
        s = [("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1),
             ("controls", 1), ("values", 1)]
    if b == "auxiliary":
        s = [("exogenous", 0), ("states", 0), ("controls", 0)]
    return s + [("parameters", 0)]


def exercise(rec, A, out, m, funs, lo=-16, hi=24, nrep=2, positive=False, near=None):
    rng = rec.rng
    A = {k: A[k] for k in ("symbols", "defs", "blocks", "bounds")}
    if out != "ok":
        rec.event("Model", outcome=out, functions=[], has_bounds=False, **A)
        return
    rec.event("Model", outcome=out, functions=list(m.functions.keys()), has_bounds=m.x_bounds is not None, **A)

    def pt(g):
        if near is not None:
            return np.array([near[n] * (1 + rng.randint(-8, 8) / 64) for n in A["symbols"][g]])
        return np.array([rng.randint(lo, hi) / 8 for _ in A["symbols"][g]])

    for b in funs:
        sig = signature(b)
        f = m.functions[b]
        for _ in range(nrep):
            args = [pt(g) for g, t in sig]
            keep = [a.copy() for a in args]
            o, r = rec.call(f, *args)
            rec.event("Call", fun=b, args=qa(keep), outcome=o, out=qa(np.atleast_1d(r)) if o == "ok" else [])
        n = rng.randint(2, 4)
        args = [np.array([pt(g) for _ in range(n)]).reshape(n, len(A["symbols"][g])) if rng.random() < 0.7 else pt(g)
                for g, t in sig[:-1]]
        args.append(pt("parameters") if rng.random() < 0.7 else np.array([pt("parameters") for _ in range(n)]))
        if all(a.ndim == 1 for a in args):
            args[0] = np.array([pt(sig[0][0]) for _ in range(n)])
        o, r = rec.call(f, *args)
        nout = {"arbitrage_lb": len(A["bounds"]), "arbitrage_ub": len(A["bounds"]), "auxiliary": len(A["defs"])}.get(b)
        if nout is None:
            nout = len(A["blocks"][b])
        buf = np.full((n, nout), 7.0)
        o2, r2 = rec.call(f, *args, out=buf)
        same = bool(o == "ok" and o2 == "ok" and np.array_equal(buf, r, equal_nan=True))
        rec.event("Stack", fun=b, n=n, args=qa([np.atleast_2d(a) for a in args]), outcome=o,
                  out=qa(r) if o == "ok" and np.ndim(r) == 2 else [], same=same)
    for b in [x for x in funs if x in ("arbitrage", "transition")]:
        sig = signature(b)
        args = [pt(g) for g, t in sig]
        if positive is False:
            args = [np.clip(a, 0.25, 1.0) for a in args]
        o, r = rec.call(m.functions[b], *args, diff=True)
        rec.event("Diff", fun=b, args=qa(args), outcome=o, out=qa(r[0]) if o == "ok" else [],
                  jac=qa(list(r[1:])) if o == "ok" else [])


def generated(i):
    def run(rec):
        A = gen(rec.rng)
        o, m = import_text(rec, A["yaml"], rec.sc)
        funs = list(A["blocks"]) + (["arbitrage_lb", "arbitrage_ub"] if A["bounds"] else []) + \
            (["auxiliary"] if A["defs"] else [])
        if o == "ok":
            funs = [f for f in funs if f in m.functions]
        exercise(rec, A, o, m, funs)
    return run


def example(fn):
    def run(rec):
        A = mparse.read_model(fn)
        o, m = rec.call(yaml_import, fn)
        funs = [f for f in (m.functions.keys() if o == "ok" else []) if f in list(SPECS) + ["auxiliary"]]
        near = {k: (v if abs(v) > 1e-6 else 0.01) for k, v in m.calibration.flat.items()} if o == "ok" else None
        for n in sum(A["symbols"].values(), []):
            if near is not None and not np.isfinite(near.get(n, np.nan)):
                near[n] = 1.0
        exercise(rec, A, o, m, funs, near=near, positive=True)
    return run


thorough = os.environ["VERIF_TIER"] == "thorough"
SC = [("gen/%d" % i, generated(i)) for i in range(400 if thorough else 48)]
R = os.environ["VERIF_REPO"]
for f in sorted(glob.glob(R + "/examples/models/*.yaml")) + sorted(glob.glob(R + "/examples/models_/*.yaml")):
    if mparse.readable(f):
        SC.append(("example/" + os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f), example(f)))
sys.exit(run_scenarios(SC))
