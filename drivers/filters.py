"""H01: trend filters."""
import os, json
from fractions import Fraction
import numpy as np
from rec import run_scenarios, q, qa, shape
from dolo.numeric.filters import hp_filter, bandpass_filter

thorough = os.environ["VERIF_TIER"] == "thorough"
F = lambda z: float(Fraction(z))


def series(rng, npr, n):
    r = rng.random()
    if r < 0.3:
        y = npr.normal(size=n)
    elif r < 0.5:
        y = np.cumsum(npr.normal(size=n)) * 10
    elif r < 0.65:
        y = np.full(n, rng.choice([0.0, 3.0, -1000.0]))
    elif r < 0.8:
        y = 0.25 * np.arange(n) - 7
    else:
        y = np.exp(0.02 * np.arange(n)) * 100 + npr.normal(size=n)
    return np.round(y * 64) / 64


def hp(k):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        for j in range(16):
            dim = rng.choice([1, 1, 2, 2, 3])
            n = rng.choice([4, 5, 6, 8, 9, 20, 45] + ([3, 2] if dim == 1 else []))
            rows = [series(rng, npr, n) for _ in range(1 if dim == 1 else rng.randint(1, 4))]
            lam = rng.choice([1600, 1600, 0, 1, 6.25, 100.0, 129600, 0.5])
            a = rows[0] if dim == 1 else np.array(rows) if dim == 2 else np.array([rows])
            if rng.random() < 0.3:
                a = np.round(a).astype(int)
                rows = [a] if dim == 1 else list(a) if dim == 2 else rows
            arg = a.tolist() if rng.random() < 0.2 else a
            b = np.array(arg)
            dflt = lam == 1600 and rng.random() < 0.5
            how = rng.choice(["keyword", "position"])
            o, r = rec.call(lambda: hp_filter(arg) if dflt else hp_filter(arg, lam=lam) if how == "keyword" else hp_filter(arg, lam))
            d = dict(outcome=o, refuse=dim == 3, short=n < 4, how=[str(dim), str(n), str(lam), how], lam=q(lam), rows=[qa(y) for y in rows], unchanged=bool(np.array_equal(b, np.array(arg))), inshape=shape(b))
            if o == "ok" and dim < 3:
                T, C = r
                d.update(T=qa(np.atleast_2d(T)), C=qa(np.atleast_2d(C)), shape=shape(T))
            rec.event("HP", **d)
    return f


def bp(k):
    def f(rec):
        rng, npr = rec.rng, rec.nprng
        for j in range(16):
            order = rng.choice([1, 2, 3, 6, 12])
            n = rng.choice([2 * order + 1, 2 * order + 2, 2 * order + 9, 3 * order + 5, 2 * order, order + 1])
            y = series(rng, npr, n)
            w1 = rng.choice([2, 3, 6, 6.5])
            w2 = rng.choice([w1 + 1, 24, 32, 40.0])
            arg = y.tolist() if rng.random() < 0.2 else y
            b = np.array(arg)
            o, r = rec.call(lambda: bandpass_filter(arg, order, w1, w2))
            rec.event("BandPass", outcome=o, y=qa(y), k=order, w1=q(w1), w2=q(w2), value=qa(r) if o == "ok" else [], unchanged=bool(np.array_equal(b, np.array(arg))), how=[str(order), str(n), str(w1), str(w2)])
    return f


def replay(k, n):
    def f(rec):
        for b in json.load(open(os.path.join(os.environ["VERIF_BEH"], "trends.json")))[k::n]:
            o, r = rec.call(lambda: hp_filter(np.array([F(z) for z in b["y"]]), F(b["lam"])))
            rec.event("Replay", outcome=o, b=b, value=qa(r[0]) if o == "ok" else [])
    return f


S = []
for k in range(80 if thorough else 12):
    S.append(("hp/%d" % k, hp(k)))
    S.append(("bandpass/%d" % k, bp(k)))
for k in range(8):
    S.append(("trends/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
