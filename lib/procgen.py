"""Random exogenous processes: a description for the specification, and a
function which builds the object (from python or from yaml)."""
import numpy as np
import yaml
from fractions import Fraction
from rec import q, qa
from dolang.language import eval_data
import dolo.compiler.objects
from dolo.numeric.distribution import *
from dolo.numeric.distribution import Truncation, EquiprobableDistribution
from dolo.numeric.processes import *
from dolo.numeric.processes import GDP, DiscretizedIIDProcess, MarkovChain


def kind_of(d):
    return "mc" if isinstance(d, MarkovChain) else "gdp" if isinstance(d, GDP) else "iid" if isinstance(d, DiscretizedIIDProcess) else type(d).__name__


def obs(d, dim):
    """everything a discretized process says about itself"""
    k = kind_of(d)
    n = int(d.n_nodes)
    rows = [[[q(d.iweight(i, j)), qa(np.asarray(d.inode(i, j)))] for j in range(d.n_inodes(i))] for i in range(n)]
    items = [[[q(w), qa(np.asarray(x))] for w, x in d.iteritems(i)] for i in range(n)]
    r = dict(kind=k, n_nodes=n, rows=rows, items=items, d=dim)
    if k != "iid":
        r.update(nodes=qa(np.asarray(d.nodes)), node=[qa(np.asarray(d.node(i))) for i in range(n)], grid=qa(np.asarray(d.grid.nodes)))
    return r


def snap(p):
    if isinstance(p, (list, tuple)):
        return [snap(e) for e in p]
    if isinstance(p, dict):
        return {k: snap(v) for k, v in p.items()}
    if isinstance(p, np.ndarray):
        return p.tolist()
    if hasattr(p, "__dict__") and type(p).__module__.startswith("dolo"):
        return {k: snap(v) for k, v in p.__dict__.items() if k not in ("_dist_", "_names_")}
    return repr(p)


def num(rng, lo, hi):
    return rng.choice([round(rng.uniform(lo, hi), 3), rng.uniform(lo, hi), rng.randint(int(lo * 8), int(hi * 8)) / 8])


def posdef(rng, d, degenerate=True):
    L = np.tril(np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(d)]))
    L[range(d), range(d)] = [rng.uniform(0.3, 1) for _ in range(d)]
    S = L @ L.T * rng.choice([1, 0.01, 4])
    S = (S + S.T) / 2
    r = rng.random()
    if d > 1 and r < 0.25 and degenerate:     # a constant dimension
        k = rng.randrange(d)
        S[k, :] = 0
        S[:, k] = 0
    elif d == 2 and r < 0.45:   # columns adding up to zero
        S = np.array([[1.0, -1.0], [-1.0, 2.0]]) * rng.choice([1, 0.25])
        if rng.random() < 0.5:
            S = S[::-1, ::-1].copy()
    return S


def prob(rng, n, zeros=True):
    w = np.array([rng.choice([0, 1, 1, 2, 3, 5]) if zeros else rng.randint(1, 5) for _ in range(n)], float)
    if w.sum() == 0:
        w[rng.randrange(n)] = 1
    return w / w.sum()


def mat(a):
    return "[" + ", ".join("[" + ", ".join(repr(float(x)) for x in r) + "]" for r in a) + "]"


def vec(a):
    return "[" + ", ".join(repr(float(x)) for x in a) + "]"


def from_yaml(txt):
    return eval_data(yaml.compose("exogenous: " + txt)["exogenous"])


def make(rng, kinds, d=None):
    """(description for the specification, thunk building the process, dimension)"""
    t = rng.choice(kinds)
    y = rng.random() < 0.35
    g = rng.random() < 0.5
    if t == "UNormal":
        mu, s = num(rng, -2, 2), num(rng, 0.1, 2) + 0.05
        if rng.random() < 0.2:
            mu = None
        A = dict(type=t, mu=q(float(mu or 0)), sigma=q(s))
        if y:
            txt = "!UNormal\n    %s: %r\n" % ("σ" if g else "sigma", s) + ("" if mu is None else "    %s: %r\n" % ("μ" if g else "mu", mu))
            return A, lambda: from_yaml(txt), 1
        kw = dict(σ=s) if g else dict(sigma=s)
        if mu is not None:
            kw["μ" if g else "mu"] = mu
        return A, lambda: UNormal(**kw), 1
    if t == "Normal":
        d = d or rng.randint(1, 3)
        S = posdef(rng, d)
        mu = [num(rng, -2, 2) for _ in range(d)]
        if rng.random() < 0.25:
            mu = None
        A = dict(type=t, mu=qa([float(x) for x in (mu or [0] * d)]), Sigma=qa(S))
        if y:
            txt = "!Normal\n    %s: %s\n" % ("Σ" if g else "Sigma", mat(S)) + ("" if mu is None else "    %s: %s\n" % ("Μ" if g else "Mu", vec(mu)))
            if g or mu is None:
                return A, lambda: from_yaml(txt), d
        kw = dict(Σ=S)
        if mu is not None:
            kw["Μ"] = mu
        return A, lambda: Normal(**kw), d
    if t == "Uniform":
        a = num(rng, -3, 3); b = a + abs(num(rng, 0, 3)) + 0.25
        return dict(type=t, a=q(a), b=q(b)), (lambda: from_yaml("!Uniform\n    a: %r\n    b: %r\n" % (a, b))) if y else (lambda: Uniform(a, b)), 1
    if t == "LogNormal":
        mu, s = num(rng, -1, 1), num(rng, 0.1, 1) + 0.05
        A = dict(type=t, mu=q(mu), sigma=q(s))
        if rng.random() < 0.2:
            A["mu"] = "0"
            return A, (lambda: from_yaml("!LogNormal\n    σ: %r\n" % s)) if y else (lambda: LogNormal(σ=s)), 1
        return A, (lambda: from_yaml("!LogNormal\n    σ: %r\n    μ: %r\n" % (s, mu))) if y else (lambda: LogNormal(σ=s, μ=mu)), 1
    if t == "Beta":
        a, b = rng.choice([(a, b) for a in range(1, 6) for b in range(1, 6) if (a, b) != (5, 5)])   # scipy gives nan there
        return dict(type=t, a=a, b=b), (lambda: from_yaml("!Beta\n    α: %d\n    β: %d\n" % (a, b))) if y else (lambda: Beta(a, b)), 1
    if t == "Trunc":
        A, f, _ = make(rng, ["UNormal", "Uniform"])
        if A["type"] == "UNormal":
            m, s = float(Fraction(A["mu"])), float(Fraction(A["sigma"]))
            lb, ub = m - s * rng.uniform(0.2, 2), m + s * rng.uniform(0.2, 2)
        else:
            a, b = float(Fraction(A["a"])), float(Fraction(A["b"]))
            lb, ub = a + (b - a) * rng.uniform(0, 0.4), b - (b - a) * rng.uniform(0, 0.4)
        r = rng.random()
        if r < 0.25:
            return dict(type=t, dist=A, lb=q(lb), ub="inf"), lambda: Truncation(f(), lb=lb), 1
        if r < 0.5:
            return dict(type=t, dist=A, lb="-inf", ub=q(ub)), lambda: Truncation(f(), ub=ub), 1
        return dict(type=t, dist=A, lb=q(lb), ub=q(ub)), lambda: Truncation(f(), lb, ub), 1
    if t == "Const":
        d = d or rng.randint(1, 3)
        mu = [float(num(rng, -2, 2)) for _ in range(d)]
        arg = mu[0] if d == 1 and rng.random() < 0.5 else mu
        return dict(type=t, mu=qa(mu)), (lambda: from_yaml("!ConstantProcess\n    μ: %s\n" % vec(mu))) if y else (lambda: ConstantProcess(μ=arg)), d
    if t == "Bern":
        p = rng.choice([0.0, 1.0, 0.5, round(rng.random(), 2), rng.random()])
        return dict(type=t, pi=q(p)), (lambda: from_yaml("!Bernouilli\n    π: %r\n" % p)) if y else (lambda: Bernouilli(π=p)), 1
    if t == "Finite":
        d = d or rng.randint(1, 2)
        n = rng.randint(1, 4)
        X = np.array([[rng.randint(-16, 16) / 8 for _ in range(d)] for _ in range(n)])
        w = prob(rng, n)
        if rng.random() < 0.3:
            w = np.ones(n) / n
            return dict(type=t, points=qa(X), weights=qa(w)), lambda: EquiprobableDistribution(X), d
        return dict(type=t, points=qa(X), weights=qa(w)), lambda: FiniteDistribution(X, w), d
    if t == "Chain":
        d = d or rng.randint(1, 2)
        n = rng.randint(1, 4)
        X = np.array([[rng.randint(-16, 16) / 8 for _ in range(d)] for _ in range(n)])
        Q = np.array([prob(rng, n) for _ in range(n)])
        return (dict(type=t, values=qa(X), transitions=qa(Q)),
                (lambda: from_yaml("!MarkovChain\n    values: %s\n    transitions: %s\n" % (mat(X), mat(Q)))) if y else (lambda: MarkovChain(Q, X)), d)
    if t == "AR1":
        r, s = rng.choice([0.0, 0.5, 0.9, round(rng.uniform(-0.9, 0.97), 3)]), abs(num(rng, 0.05, 1)) + 0.01
        mu = None if rng.random() < 0.3 else num(rng, -1, 1)
        A = dict(type=t, rho=q(r), sigma=q(s), mu=q(float(mu or 0)))
        if y:
            return A, lambda: from_yaml("!AR1\n    ρ: %r\n    σ: %r\n" % (r, s) + ("" if mu is None else "    μ: %r\n" % mu)), 1
        kw = dict(ρ=r, σ=s) if g else dict(rho=r, sigma=s)
        if mu is not None:
            kw["μ"] = mu
        return A, lambda: AR1(**kw), 1
    if t == "VAR1":
        d = d or rng.randint(1, 3)
        S = posdef(rng, d)
        r = rng.choice([0.0, 0.5, 0.9, round(rng.uniform(-0.9, 0.97), 3)])
        mu = None if rng.random() < 0.3 else [float(num(rng, -1, 1)) for _ in range(d)]
        A = dict(type=t, rho=q(r), Sigma=qa(S), mu=qa(mu or [0.0] * d))
        if y:
            return A, lambda: from_yaml("!VAR1\n    %s: %r\n    Σ: %s\n" % ("ρ" if g else "rho", r, mat(S)) + ("" if mu is None else "    μ: %s\n" % vec(mu))), d
        rr = rng.choice([r, [r] * d, (np.eye(d) * r).tolist()])
        return A, lambda: VAR1(ρ=rr, Σ=S, μ=mu), d
    raise ValueError(t)
