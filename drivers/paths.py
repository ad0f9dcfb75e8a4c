"""P02: simulations, draws and responses of exogenous processes."""
import sys, os
import numpy as np
from collections import Counter
from fractions import Fraction
from rec import run_scenarios, q, qa
from procgen import *
from dolo.numeric.processes import simulate_markov_chain
from dolo.numeric.distribution import ProductDistribution

thorough = os.environ["VERIF_TIER"] == "thorough"
BIG = 20000 if thorough else 6000


def coarse(x):
    x = float(x)
    return str(Fraction(round(x * 2**24), 2**24)) if np.isfinite(x) else q(x)


def row(rng, n):
    r = rng.random()
    if r < 0.2:
        w = [0.0] * n
        w[rng.randrange(n)] = 1.0
        return w
    if r < 0.35:
        return [round(1 / n, 3)] * n     # rounded probabilities, as in model files
    return [float(x) for x in prob(rng, n)]


def chain(rng, n=None):
    n = n or rng.randint(1, 4)
    d = rng.choice([1, 1, 2])
    V = np.array([[i + k / 4 for k in range(d)] for i in range(n)])
    V = V[rng.sample(range(n), n)]
    if rng.random() < 0.2:      # a cycle: the path is forced
        Q = np.roll(np.eye(n), 1, axis=1)
    else:
        Q = np.array([row(rng, n) for _ in range(n)])
    return Q, V


def where(V, x):
    m = [i for i in range(len(V)) if np.array_equal(V[i], x)]
    return m[0] + 1 if m else 0


def paths_of(sim, V):
    T, N = sim.shape[:2]
    return [[where(V, sim[t, k]) for t in range(T)] for k in range(N)]


def seeded(s, f):
    np.random.seed(s)
    return f()


def chains(i):
    def run(rec):
        rng = rec.rng
        for _ in range(4):
            Q, V = chain(rng)
            n = len(Q)
            N, T = rng.choice([1, 2, 5]), rng.choice([1, 2, 8, 30])
            how = rng.choice(["object", "function", "values"])
            i0 = rng.choice([0, rng.randrange(n)])
            start = [i0] * N
            if how != "object" and rng.random() < 0.5:
                start = [rng.randrange(n) for _ in range(N)]
            default = i0 == 0 and start == [0] * N and rng.random() < 0.5
            arg = None if default else i0 if start == [i0] * N else np.array(start)

            def f():
                if how == "object":
                    mc = MarkovChain(Q, V)
                    s = np.asarray(mc.simulate(N, T) if default else mc.simulate(N, T, i0=i0))
                    return paths_of(s, V), []
                if how == "values":
                    ind, val = simulate_markov_chain(V, Q, N, T, i0=arg, return_values=True)
                    return (np.asarray(ind).T + 1).tolist(), [[qa(val[t, k]) for t in range(T)] for k in range(N)]
                return (np.asarray(simulate_markov_chain(V, Q, N, T, i0=arg)).T + 1).tolist(), []
            s = rng.randrange(10**6)
            o, r = rec.call(lambda: (seeded(s, f), seeded(s, f)))
            rec.event("Simulate", outcome=o, Q=qa(Q), V=qa(V), N=N, T=T, start=[e + 1 for e in start],
                      paths=r and r[0][0], values=r and r[0][1], again=r is not None and r[0] == r[1], how=how)
            if n <= 3 and T > 1:
                T = rng.choice([2, 3, 4])
                Qn = Q / Q.sum(axis=1)[:, None]
                s = rng.randrange(10**6)
                if rng.random() < 0.5:
                    o, r = rec.call(lambda: seeded(s, lambda: paths_of(np.asarray(MarkovChain(Q, V).simulate(BIG, T, i0=i0)), V)))
                else:
                    o, r = rec.call(lambda: seeded(s, lambda: (np.asarray(simulate_markov_chain(V, Q, BIG, T, i0=i0)).T + 1).tolist()))
                c = Counter(map(tuple, r or []))
                rec.event("Frequencies", outcome=o, Q=qa(Qn), N=BIG, T=T, start=i0 + 1, counts=[dict(path=list(k), n=v) for k, v in sorted(c.items())])
            o, r = rec.call(lambda: np.asarray(MarkovChain(Q, V).simulate(N, T, i0=i0, stochastic=False)))
            rec.event("Stays", outcome=o, N=N, T=T, V=qa(V), start=i0 + 1, shape=r is not None and list(r.shape), values=[] if r is None else qa(r.reshape((-1, r.shape[-1]))))
    return run


def auto(rng):
    if rng.random() < 0.5:
        A, f, d = make(rng, ["AR1"])
        return A, f, d
    d = rng.randint(1, 3)
    S = posdef(rng, d)
    mu = [float(num(rng, -1, 1)) for _ in range(d)]
    k = rng.choice(["scalar", "vector", "matrix"])
    if k == "scalar":
        R = np.eye(d) * rng.uniform(-0.9, 0.95); arg = float(R[0, 0])
    elif k == "vector":
        v = [rng.uniform(-0.9, 0.9) for _ in range(d)]; R = np.diag(v); arg = v
    else:
        R = np.array([[rng.uniform(-0.4, 0.4) for _ in range(d)] for _ in range(d)]); arg = R
    z = rng.random() < 0.3
    A = dict(type="VAR1", R=qa(R), Sigma=qa(S), mu=qa([0.0] * d if z else mu))
    return A, (lambda: VAR1(ρ=arg, Σ=S)) if z else (lambda: VAR1(ρ=arg, Σ=S, μ=mu)), d


def autos(i):
    def run(rec):
        rng = rec.rng
        for _ in range(2):
            A, f, d = auto(rng)
            mu = [A["mu"]] if A["type"] == "AR1" else A["mu"]
            for sto in (True, False):
                N, T = rng.choice([(2, BIG // 6), (40, BIG // 120), (BIG // 6, 3)]) if sto else (rng.choice([1, 2, 4]), rng.choice([2, 10]))
                m0 = None if rng.random() < 0.4 else [rng.randint(-16, 16) / 8 for _ in range(d)]
                kw = dict() if sto and rng.random() < 0.5 else dict(stochastic=sto)
                if m0 is not None:
                    kw["m0"] = np.array(m0)
                s = rng.randrange(10**6)
                o, r = rec.call(lambda: [np.asarray(seeded(s, lambda: f().simulate(N, T, **kw))) for _ in range(2)])
                c = coarse if sto else q
                rec.event("Autoreg", outcome=o, proc=A, N=N, T=T, stochastic=sto, start=mu if m0 is None else qa(m0),
                          again=r is not None and np.array_equal(r[0], r[1]),
                          paths=r and [[[(q if t == 0 else c)(r[0][t, n, k]) for t in range(r[0].shape[0])] for k in range(d)] for n in range(r[0].shape[1])])
        for _ in range(2):
            if rng.random() < 0.7:
                A, f, d = auto(rng)
            else:
                A, f, d = make(rng, ["UNormal", "Normal"])
            T = rng.choice([1, 2, 5, 12])
            imp = [rng.randint(-16, 16) / 8 for _ in range(d)]
            want = ["v%d" % k for k in range(d)]

            def go():
                p = f(); p.names = tuple(want)
                x = p.response(T, np.array(imp))
                return qa(np.asarray(x)), [str(e) for e in x.coords["V"].values]
            o, r = rec.call(go)
            rec.event("Response", outcome=o, proc=A, T=T, impulse=qa(imp), irf=r and r[0], names=r and r[1], want=want)
    return run


def draws(i):
    def run(rec):
        rng = rec.rng
        for _ in range(4):
            t = rng.choice(["UNormal", "Normal", "Uniform", "Const", "Bern", "Finite", "Finite", "Mix"])
            n = BIG
            if t == "Mix":
                k = rng.choice([2, 2, 3])
                cs = [make(rng, ["UNormal", "Uniform"]) for _ in range(k)]
                w = [float(x) for x in prob(rng, k, zeros=False)]
                if k == 2 and rng.random() < 0.5:
                    fi = lambda: Bernouilli(π=w[1])
                else:
                    fi = lambda: FiniteDistribution(np.arange(k)[:, None], np.array(w))
                A, f, d = dict(type="Mix", weights=qa(w), comps=[c[0] for c in cs]), lambda: Mixture(index=fi(), distributions={str(j): cs[j][1]() for j in range(k)}), 1
            else:
                A, f, d = make(rng, [t])
                if A["type"] == "Normal" and d == 3:
                    n = BIG // 2
            s = rng.randrange(10**6)
            how = rng.choice(["draw", "simulate"])
            T = rng.choice([1, 2, n // 4, n])

            def go():
                p = f()
                if how == "draw":
                    x = np.asarray(p.draw(n))
                    return x
                x = p.simulate(n // T, T)
                if x.dims != ("T", "N", "V"):
                    raise ValueError(x.dims)
                x = np.asarray(x)
                assert x.shape == (T, n // T, d), x.shape
                return x.reshape((-1, d))
            o, r = rec.call(lambda: [np.asarray(seeded(s, go)) for _ in range(2)])
            c = coarse if A["type"] in ("UNormal", "Normal", "Uniform", "Mix", "Const") else q
            if A["type"] in ("UNormal", "Normal", "Uniform"):
                c = lambda x: str(Fraction(round(float(x) * 2**36), 2**36)) if np.isfinite(x) else q(x)
            rec.event("Draws", outcome=o, proc=A, N=n, d=d, how=how, again=r is not None and np.array_equal(r[0], r[1]),
                      cols=r and [[c(x) for x in r[0][:, k]] for k in range(r[0].shape[1])])
            shapes = []
            for z in (1, 2):
                o, x = rec.call(lambda: np.asarray(f().draw(z)))
                shapes.append(dict(what="draw", outcome=o, shape=[] if x is None else list(x.shape), want=[z, d], finite=x is not None and bool(np.isfinite(np.asarray(x, dtype=float)).all())))
            for N, T in ((1, 1), (2, 1), (1, 3)):
                o, x = rec.call(lambda: np.asarray(f().simulate(N, T)))
                shapes.append(dict(what="simulate", outcome=o, shape=[] if x is None else list(x.shape), want=[T, N, d], finite=x is not None and bool(np.isfinite(np.asarray(x, dtype=float)).all())))
            rec.event("Small", proc=A, calls=shapes)
        # products of independent processes
        fs = [make(rng, ["UNormal", "AR1"]) for _ in range(rng.choice([1, 2, 3]))]
        T, N = rng.choice([(BIG // 10, 4), (4, BIG // 10), (2, BIG // 4)])
        s = rng.randrange(10**6)
        if all(A["type"] == "UNormal" for A, _, _ in fs) and rng.random() < 0.5:
            o, r = rec.call(lambda: np.asarray(seeded(s, lambda: ProductDistribution([f() for _, f, _ in fs]).simulate(N, T))))
        else:
            o, r = rec.call(lambda: np.asarray(seeded(s, lambda: ProductProcess(*[f() for _, f, _ in fs]).simulate(N, T))))
        rec.event("ProductSim", outcome=o, factors=[A for A, _, _ in fs], T=T, N=N, shape=r is not None and list(r.shape),
                  paths=[] if r is None else [[[coarse(r[t, n, k]) for t in range(r.shape[0])] for k in range(r.shape[2])] for n in range(r.shape[1])])
    return run


k = 4 if thorough else 1
SC = [("chains/%d" % i, chains(i)) for i in range(40 * k)]
SC += [("autoregressions/%d" % i, autos(i)) for i in range(24 * k)]
SC += [("draws/%d" % i, draws(i)) for i in range(24 * k)]
sys.exit(run_scenarios(SC))
