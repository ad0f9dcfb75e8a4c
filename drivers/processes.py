import sys, os, copy
import numpy as np
import yaml
from fractions import Fraction
from rec import run_scenarios, q, qa
from dolo import yaml_import
from dolang.language import eval_data
from dolo.numeric.distribution import *
from dolo.numeric.distribution import Truncation, ProductDistribution, EquiprobableDistribution, product_iid
from dolo.numeric.processes import *
from dolo.numeric.processes import product_mc, GDP, DiscretizedIIDProcess, MarkovChain
from dolo.numeric.discretization import tauchen, rouwenhorst, tensor_markov, multidimensional_discretization, gauss_hermite_nodes
import dolo.compiler.objects
from procgen import kind_of, obs, snap, num, posdef, prob, mat, vec, from_yaml, make

thorough = os.environ["VERIF_TIER"] == "thorough"


CONT = ["UNormal", "Uniform", "LogNormal", "Beta", "Trunc"]
DISC = ["Const", "Bern", "Finite"]


def one(rec, A, f, d, **opts):
    """discretize one process, record it"""
    rng = rec.rng
    to = opts.get("to")
    ev = dict(proc=A, to=to, method="", where="", N=0, ns=[])
    ev.update({k: v for k, v in opts.pop("_ev", {}).items()})

    def run():
        p = f()
        before = snap(p)
        dp = p.discretize(**opts)
        r = obs(dp, d)
        return r, before == snap(p)
    o, r = rec.call(run)
    ev["outcome"] = o
    if o == "ok":
        ev["dis"], ev["unchanged"] = r
    rec.event("Discretize", **ev)


def request(rng, A, d):
    """a discretization request for this process: (kwargs, expectations)"""
    t = A["type"]
    to = rng.choice(["iid", "iid", "mc"])
    kw, ev = {}, {}
    if t == "UNormal" and rng.random() < 0.5:
        n = rng.choice([1, 2, 3, 5, 5, 7, 8])
        kw = dict(method="gauss-hermite", N=n)
        ev = dict(method="gauss-hermite", ns=[n], N=n)
        if n == 5 and rng.random() < 0.5:
            del kw["N"]
    elif t in CONT:
        n = rng.choice([1, 2, 3, 5, 5, 8])
        w = rng.choice(["median", "left", "right", "middle"])
        if w == "middle" and (t in ("UNormal", "LogNormal") or t == "Trunc" and A["dist"]["type"] == "UNormal" and "inf" in (A["lb"] + A["ub"])):
            w = "median"      # half-way to infinity is not a point
        kw = dict(N=n, mass_point=w)
        if rng.random() < 0.5:
            kw["method"] = "equiprobable"
        ev = dict(method="equiprobable", where=w, N=n)
        if n == 5 and rng.random() < 0.5:
            del kw["N"]
        if w == "median" and rng.random() < 0.5:
            del kw["mass_point"]
    elif t == "Normal":
        n = rng.choice([None, 2, 3, "list"])
        ns = [5] * d if n is None else [rng.randint(2, 4) for _ in range(d)] if n == "list" else [n] * d
        if n is None and d == 3:
            ns = [3] * d
            n = 3
        kw = {} if n is None else dict(N=ns if n == "list" else n)
        if d == 3:
            to = "iid"
        ev = dict(method="gauss-hermite", ns=ns, N=0)
    elif t in ("AR1", "VAR1"):
        to = rng.choice(["mc", "mc", "gdp"]) if d == 1 else "mc"
        n = rng.choice([2, 3, 3, 4, 5]) if d == 1 else rng.choice([2, 3]) if d == 2 else 2
        if to == "mc" and rng.random() < 0.1:
            n = 1
        kw = dict(N=n)
        ev = dict(N=n)
        if n == 3 and rng.random() < 0.5:
            del kw["N"]
    elif t == "Const":
        n = rng.choice([None, 1, 2, 3])
        if n and to == "mc":
            kw, ev = dict(N=n), dict(N=n)
    elif t == "Chain":
        to = rng.choice(["mc", "gdp"])
    if not (to == "mc" and t in ("AR1", "VAR1", "Chain") and rng.random() < 0.5) and not (to == "iid" and rng.random() < 0.4):
        kw["to"] = to
    return kw, dict(ev, to=to)


def scenario(i):
    def run(rec):
        rng = rec.rng
        for _ in range(20 if thorough else 10):
            A, f, d = make(rng, CONT + ["UNormal", "Normal", "Normal", "Const", "Bern", "Finite", "AR1", "AR1", "VAR1", "VAR1", "Chain"])
            kw, ev = request(rng, A, d)
            one(rec, A, f, d, _ev=ev, **kw)
        # integrals
        A, f, d = make(rng, ["UNormal"])
        for k in (0, 1, 2):
            o, v = rec.call(lambda: q(f().integrate(lambda x: x ** k)))
            rec.event("Integrate", proc=A, outcome=o, value=v, power=k)
        A, f, d = make(rng, ["Finite"], d=1)
        for k in (1, 2):
            o, v = rec.call(lambda: q(np.ravel(f().integrate(lambda x: x ** k))[0]))
            rec.event("Integrate", proc=A, outcome=o, value=v, power=k, law=[[w, x] for w, x in zip(A["weights"], A["points"])])
    return run


def products(i):
    def run(rec):
        rng = rec.rng
        for _ in range(8 if thorough else 4):
            how = rng.choice(["iid", "iid", "mc", "mc", "product_iid", "product_mc", "tensor", "dist"])
            n = rng.choice([1, 2, 2, 3])
            if how == "tensor":
                n = rng.choice([2, 3])
            if how == "mc":
                ks = ["Chain", "VAR1", "AR1", "Chain", "Finite", "Const"]
                fs = [make(rng, ks, d=rng.choice([1, 1, 2])) for _ in range(n)]
                if not any(A["type"] in ("Chain", "VAR1", "AR1") for A, _, _ in fs):
                    fs[rng.randrange(n)] = make(rng, ["VAR1", "Chain"], d=1)
            elif how in ("product_mc", "tensor"):
                fs = [make(rng, ["Chain"]) for _ in range(n)]
            elif how == "product_iid":
                fs = [make(rng, ["Finite"]) for _ in range(n)]
            elif how == "dist":
                fs = [make(rng, ["UNormal", "Uniform", "Beta", "LogNormal"]) for _ in range(n)]
            else:
                fs = [make(rng, ["UNormal", "Uniform", "Bern", "Finite", "Const", "Normal"], d=rng.choice([1, 1, 2])) for _ in range(n)]
            to = "mc" if how in ("mc", "product_mc", "tensor") else "iid"
            d = sum(e[2] for e in fs)
            size = 1
            facs = []
            # how each factor is to be discretized
            opts = [{}] * n
            if how in ("iid", "mc") and rng.random() < 0.5:
                opts = [dict(N=rng.choice([2, 3])) if A["type"] in ("UNormal", "Uniform", "Normal", "VAR1", "AR1") else {} for A, _, _ in fs]
            elif how in ("iid", "mc") and all(A["type"] in ("UNormal", "Uniform", "Normal", "VAR1", "AR1") for A, _, _ in fs) and rng.random() < 0.7:
                opts = dict(N=2)
            each = [opts] * n if isinstance(opts, dict) else opts
            try:
                for (A, f, dd), kw in zip(fs, each):
                    facs.append(obs(f().discretize(to=to, **kw), dd))
                    size *= len(facs[-1]["rows"][0])
            except Exception:
                continue      # a factor that cannot be discretized is reported elsewhere
            if size > (40 if to == "mc" else 300):
                continue

            def f():
                ps = [e[1]() for e in fs]
                if how == "product_iid":
                    return product_iid(ps)
                if how == "product_mc":
                    return product_mc(ps)
                if how == "tensor":
                    P, Q = tensor_markov(*[(p.values, p.transitions) for p in ps])
                    return MarkovChain(Q, P)
                if how == "dist":
                    return ProductDistribution(ps).discretize(to="iid")
                P = ProductProcess(*ps)
                assert P.d == d
                r = rng.random()
                if any(each):
                    return P.discretize(options=opts) if r < 0.5 else P.discretize(to=to, options=opts)
                return P.discretize() if r < 0.5 else P.discretize(to=to) if r < 0.8 else P.discretize(to=to, options=[{}] * len(ps))
            o, r = rec.call(lambda: obs(f(), d))
            rec.event("Product", outcome=o, to=to, factors=facs, dis=r)
        # mixtures
        for _ in range(3):
            ks = rng.choice([[0, 1], [1, 0], [0, 1, 2], [2, 0, 1]])
            d = rng.choice([1, 1, 2])
            comps = [make(rng, ["UNormal", "Const", "Uniform", "Finite", "Bern"] if d == 1 else ["Const", "Finite", "Normal"], d=d) for _ in range(len(ks))]
            if len(ks) == 2 and rng.random() < 0.6:
                _, fi, _ = make(rng, ["Bern"])
            else:
                w = prob(rng, len(ks), zeros=False)
                fi = lambda: FiniteDistribution(np.array(ks)[:, None], w)
            try:
                I = obs(fi().discretize(to="iid"), 1)
                C = [obs(f().discretize(to="iid"), d) for _, f, _ in comps]
            except Exception:
                continue
            to = rng.choice(["iid", "mc"])
            o, r = rec.call(lambda: obs(Mixture(index=fi(), distributions={str(k): comps[k][1]() for k in range(len(ks))}).discretize(to=to), d))
            rec.event("Mixture", outcome=o, to=to, index=I, comps=C, dis=r)
    return run


def constructions(i):
    def run(rec):
        rng = rec.rng
        for _ in range(4):
            rho, s = rng.choice([0.0, 0.5, 0.9, rng.uniform(-0.95, 0.99)]), rng.uniform(0.01, 2)
            N = rng.randint(1, 8)
            o, r = rec.call(lambda: [qa(np.asarray(e)) for e in rouwenhorst(rho, s, N)])
            rec.event("Rouwenhorst", outcome=o, N=N, rho=q(rho), sigma=q(s), Z=r and r[0], Q=r and r[1])
            N = rng.randint(2, 7)
            mu, m = num(rng, -1, 1), rng.choice([1, 2, 3, 2.5])
            o, r = rec.call(lambda: [qa(np.ravel(e[0])) if False else (qa(np.ravel(e[0])), qa(e[1])) for e in [tauchen(N, mu, rho, s, m)]][0])
            rec.event("Tauchen", outcome=o, N=N, mu=q(float(mu)), rho=q(rho), sigma=q(s), m=q(m), Z=r and r[0], Q=r and r[1])
        d = rng.choice([1, 2])
        S = posdef(rng, d, degenerate=False)
        N = rng.choice([2, 3])
        o, r = rec.call(lambda: [qa(np.asarray(e)) for e in multidimensional_discretization(rho, S, N=N, method="tauchen")])
        rec.event("TauchenVar", outcome=o, N=N, rho=q(rho), Sigma=qa(S), P=r and r[0], Q=r and r[1])
        # requests nothing can satisfy
        bad = [("vector autoregression with two autocorrelations", lambda: VAR1(ρ=[[0.9, 0], [0, 0.5]], Σ=np.eye(2)).discretize()),
               ("vector autoregression with cross effects", lambda: VAR1(ρ=[[0.5, 0.3], [0.0, 0.5]], Σ=np.eye(2)).discretize(to="mc")),
               ("unknown method", lambda: UNormal(σ=1.0).discretize(method="gauss")),
               ("unknown mass point", lambda: Uniform(0, 1).discretize(mass_point="center")),
               ("iid version of a markov chain", lambda: MarkovChain([[0.9, 0.1], [0.1, 0.9]], [[0], [1]]).discretize(to="iid")),
               ("iid version of an autoregressive process", lambda: AR1(ρ=0.9, σ=0.1).discretize(to="iid")),
               ("iid version of an autoregressive process", lambda: VAR1(ρ=0.9, Σ=[[0.1]]).discretize(to="iid")),
               ("generic discretization of a two-dimensional autoregression", lambda: VAR1(ρ=0.9, Σ=np.eye(2)).discretize(to="gdp")),
               ("weights that do not match the points", lambda: FiniteDistribution(np.zeros((3, 1)), np.ones(2) / 2))]
        for what, f in bad:
            o, _ = rec.call(f)
            rec.event("Refuse", outcome=o, what=what)
    return run


SC = [("discretize/%d" % i, scenario(i)) for i in range(200 if thorough else 40)]
SC += [("products/%d" % i, products(i)) for i in range(160 if thorough else 40)]
SC += [("constructions/%d" % i, constructions(i)) for i in range(60 if thorough else 12)]
sys.exit(run_scenarios(SC))
