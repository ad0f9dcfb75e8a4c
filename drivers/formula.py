"""Q01: formulas over tables of time series."""
import os, json, copy
from fractions import Fraction
import numpy as np
import pandas as pd
from rec import run_scenarios, q, qa
from mgen import gen, num, var, par, dec, POOL
from dolo import yaml_import
from dolo.compiler.eval_formula import eval_formula

thorough = os.environ["VERIF_TIER"] == "thorough"
PREC = dict(add=1, sub=1, mul=2, div=2, neg=3, pow=4)


def text(e, rng):
    """text with the parentheses the usual precedences require, and sometimes more"""
    o = e[0]
    if o == "num":
        f = Fraction(e[1])
        return (dec(f) if f >= 0 else "(-%s)" % dec(-f))
    if o == "par":
        return e[1]
    if o == "time":
        return "t"
    if o == "var":
        if e[2] and rng.random() < 0.3:
            return "%s[t%+d]" % (e[1], e[2])
        return "%s(%d)" % (e[1], e[2])
    if o in ("exp", "log"):
        return "%s(%s)" % (o, text(e[1], rng))
    sp = " " if rng.random() < 0.3 else ""
    def arg(x, strict):
        s = text(x, rng)
        p = PREC.get(x[0], 9)
        need = p < PREC[o] or (p == PREC[o] and strict) or (o == "pow" and p < 9) or (x[0] == "neg")
        return "(%s)" % s if need or (p < 9 and rng.random() < 0.2) else s
    if o == "neg":
        return "-" + arg(e[1], True)
    return arg(e[1], o == "pow") + sp + dict(add="+", sub="-", mul="*", div="/", pow=rng.choice(["^", "^", "**"]))[o] + sp + arg(e[2], True)


def rand(rng, leaves, depth):
    if depth == 0 or rng.random() < 0.1:
        return num(Fraction(rng.randint(1, 24), rng.choice([1, 2, 4, 8]))) if rng.random() < 0.15 else rng.choice(leaves)
    r, sub = rng.random(), lambda: rand(rng, leaves, depth - 1)
    if r < 0.7:
        return [rng.choice(["add", "sub", "sub", "mul"]), sub(), sub()]
    d = sub()
    sqp = ["add", num(1), ["mul", d, d]]
    if r < 0.8:
        return ["div", sub(), sqp]
    if r < 0.85:
        return ["pow", d, num(rng.choice([2, 3]))]
    if r < 0.9:
        return ["neg", d]
    if r < 0.95:
        return ["log", sqp]
    return ["exp", ["div", rng.choice(leaves), num(4)]]


def table(rng, npr, cols, n):
    d = {c: np.round(npr.normal(size=n) * 8) / 8 for c in cols}
    if rng.random() < 0.3:
        c = rng.choice(cols)
        d[c] = npr.integers(-4, 5, n)
    if n > 2 and rng.random() < 0.3:
        c = rng.choice(cols)
        d[c] = d[c].astype(float)
        d[c][rng.randrange(n)] = np.nan
    start = rng.choice([0, 0, 1, 5, -3])
    return pd.DataFrame(d, index=pd.RangeIndex(start, start + n)) if rng.random() < 0.7 else pd.DataFrame(d, index=[start + 2 * k for k in range(n)])


def as_T(df):
    return dict(cols={c: qa(df[c].values) for c in df.columns}, index=qa(np.array(df.index)))


def record(rec, e, df, ctx, call, extra, source):
    s = text(e, rec.rng)
    d0 = None if df is None else df.copy(deep=True)
    c0 = copy.deepcopy(source)
    o, r = rec.call(lambda: call(s))
    same = (df is None or df.equals(d0)) and list(source.keys()) == list(c0.keys()) and all(np.array_equal(source[k], c0[k]) for k in c0.keys())
    v = dict(kind="?", value=[], index=[])
    if o == "ok":
        if isinstance(r, pd.Series):
            v = dict(kind="series", value=qa(r.values), index=qa(np.array(r.index)))
        elif np.ndim(r) == 0:
            v = dict(kind="number", value=q(r), index=[])
        else:
            v = dict(kind=type(r).__name__, value=[], index=[])
    rec.event("Formula", e=e, text=s, outcome=o, T=as_T(df) if df is not None else dict(cols={}, index=["0"]), ctx=ctx,
              unchanged=bool(same), notable=df is None, **v)


def one(how, k):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        names = POOL[:]
        rng.shuffle(names)
        cols = names[:rng.randint(1, 4)]
        pars = names[4:4 + rng.randint(1, 4)]
        absent = names[10]
        ctx = {p: rng.randint(-16, 16) / 8 for p in pars}
        for c in cols:
            if rng.random() < 0.3:
                ctx[c] = 100.0 + len(c)           # the same name, undated
        if how == "model":
            A = gen(rng, blocks=["arbitrage", "transition"], style="new")
            fn = os.path.abspath("m_%s.yaml" % rec.sc.replace("/", "_"))
            open(fn, "w").write(A["yaml"])
            model = yaml_import(fn, check=False)
            ctx = {n: float(v) for n, v in model.calibration.flat.items()}
            pars = list(ctx.keys())
            cols = [c for c in pars if rng.random() < 0.6] or pars[:2]
        qc = {n: q(v) for n, v in ctx.items()}
        for j in range(6):
            n = rng.choice([1, 2, 4, 7])
            df = table(rng, npr, cols, n)
            leaves = [var(c, t) for c in cols for t in (0, 1, -1, rng.randint(-3, 3))] + [par(p) for p in ctx]
            if rng.random() < 0.2:
                leaves += [["time"]] * 2
            e = rand(rng, leaves, rng.choice([0, 1, 2, 3, 3]))
            bad = rng.random()
            if bad < 0.06:
                e = ["add", e, var(absent, rng.choice([0, 1, -1]))]
            elif bad < 0.12:
                e = ["sub", par(absent), e]
            extra = {}
            if how == "model":
                if rng.random() < 0.3:
                    alt = copy.deepcopy(dict(ctx))
                    alt[rng.choice(pars)] = 0.375
                    record(rec, e, df, {n: q(v) for n, v in alt.items()}, lambda s: model.eval_formula(s, df, calib=alt), extra, alt)
                else:
                    record(rec, e, df, qc, lambda s: model.eval_formula(s, df), extra, model.calibration.flat)
            else:
                record(rec, e, df, qc, lambda s: eval_formula(s, df, ctx), extra, ctx)
        # no table at all
        for j in range(2):
            e = rand(rng, [par(p) for p in ctx] + ([var(cols[0], 1)] if j else []), 2)
            if how == "model":
                record(rec, e, None, qc, lambda s: model.eval_formula(s), {}, model.calibration.flat)
            else:
                record(rec, e, None, qc, lambda s: eval_formula(s, context=ctx), {}, ctx)
    return f


def replay(k, n):
    def f(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "formulas.json")))
        F = lambda z: float(Fraction(z))
        for b in B[k::n]:
            df = pd.DataFrame({c: [F(z) for z in v] for c, v in b["T"]["cols"].items()})
            s = text(b["e"], rec.rng)
            o, r = rec.call(lambda: eval_formula(s, df, {c: F(v) for c, v in b["ctx"].items()}))
            rec.event("Replay", outcome=o, b=b, text=s, value=qa(r.values) if o == "ok" else [])
    return f


S = []
for k in range(60 if thorough else 10):
    for how in ("model", "context", "context2"):
        S.append(("%s/%d" % (how, k), one(how, k)))
for k in range(8):
    S.append(("formulas/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
