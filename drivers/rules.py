"""D01: decision rules on grids, expansions, custom and constant rules."""
import sys, os
import numpy as np
from rec import run_scenarios, q, qa
from mgen import gen, rand_expr, var, par, show, num
from dolo import yaml_import
from dolo.numeric.decision_rule import DecisionRule, ConstantDecisionRule, CustomDR
from dolo.numeric.taylor_expansion import TaylorExpansion
from dolo.algos.perturbation import BivariateTaylor
from dolo.numeric.grids import *
from dolo.numeric.grids import SmolyakGrid

thorough = os.environ["VERIF_TIER"] == "thorough"


def f8(rng, lo=-3, hi=3):
    return rng.choice([rng.randint(lo * 8, hi * 8) / 8, rng.uniform(lo, hi)])


def box(rng, d):
    a = np.array([f8(rng) for _ in range(d)])
    return a, a + np.array([rng.choice([0.25, 1.0, 3.0, rng.uniform(0.1, 4)]) for _ in range(d)])


def values(rng, npr, n_m, N, nx, nodes_m, nodes_s):
    """random values, or a multilinear function of the nodes"""
    if rng.random() < 0.1:
        return npr.integers(-3, 4, (n_m, N, nx))
    if rng.random() < 0.7:
        return npr.integers(-32, 32, (n_m, N, nx)) / 8 if rng.random() < 0.6 else npr.standard_normal((n_m, N, nx))
    c = npr.standard_normal((nx, 3))
    return np.array([[[c[k, 0] + c[k, 1] * np.prod(s) + c[k, 2] * (np.sum(m) + s[0]) for k in range(nx)] for s in nodes_s] for m in nodes_m])


def ev(rec, how, call, i, m, s, single, given=None):
    o, r = rec.call(call)
    d = dict(how=how, i=i, m=qa(m) if m is not None else [], s=qa(np.atleast_2d(s)), outcome=o, want=1 if single else 2)
    if o == "ok":
        r = np.asarray(r)
        d.update(rank=int(r.ndim), out=qa(np.atleast_2d(r)))
    if given is not None:
        d["given"] = qa(np.atleast_2d(given))
    rec.event("Eval", **d)


def grid_rule(exo, method, ds, dm):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(6 if thorough else 3):
            a, b = box(rng, ds)
            n = [rng.choice([2, 3, 4, 5, 6] if ds < 3 else [2, 3, 4]) for _ in range(ds)]
            uniform = method == "cubic" or exo == "grid" or rng.random() < 0.75
            A = dict(kind="grid", exo=exo, method="cubic" if method == "cubic" else "linear", uniform=uniform)
            if uniform:
                g = UniformCartesianGrid(a, b, n)
                A.update(min=qa(a), max=qa(b), n=n)
            else:
                axes = [sorted({a[k], b[k]} | {a[k] + (b[k] - a[k]) * rng.random() for _ in range(n[k] - 2)}) for k in range(ds)]
                g = NonUniformCartesianGrid(axes)
                A.update(axes=qa(axes))
            S = np.asarray(g.nodes)
            nx = rng.choice([1, 2, 3])
            if exo == "empty":
                eg, M = EmptyGrid(), np.zeros((1, 1))
            elif exo == "chain":
                M = np.array([[f8(rng) for _ in range(dm)] for _ in range(rng.choice([1, 2, 3]))])
                eg = UnstructuredGrid(M)
            else:
                ma, mb = box(rng, dm)
                mn = [rng.choice([2, 3, 4]) for _ in range(dm)]
                eg = UniformCartesianGrid(ma, mb, mn)
                M = np.asarray(eg.nodes)
                A.update(mmin=qa(ma), mmax=qa(mb), mn=mn)
            V = values(rng, npr, len(M), len(S), nx, M, S)
            give = V.copy()
            name = {"cubic": "cubic", "linear": rng.choice(["linear", "multilinear"])}[method]
            late = rng.random() < 0.3

            def build():
                if late:
                    d = DecisionRule(eg, g, interp_method=name)
                    d.set_values(give)
                    return d
                if name == "cubic" and rng.random() < 0.5:
                    return DecisionRule(eg, g, values=give)
                return DecisionRule(eg, g, interp_method=name, values=give)
            o, dr = rec.call(build)
            rec.event("Rule", outcome=o, values=qa(V), **A)
            if o != "ok":
                continue
            give[...] = 99.0       # the caller's array is not the rule's
            for rep in range(2):
                if rep:
                    V = values(rng, npr, len(M), len(S), nx, M, S)
                    if rng.random() < 0.5:
                        break
                    o, _ = rec.call(lambda: dr.set_values(V.copy()))
                    rec.event("SetValues", outcome=o, values=qa(V))
                evaluate(rec, dr, exo, a, b, S, M, V, ds, dm)
    return run


def evaluate(rec, dr, exo, a, b, S, M, V, ds, dm):
    rng = rec.rng

    def pts(k):
        P = np.array([[a[j] + (b[j] - a[j]) * rng.choice([rng.random(), rng.random(), rng.uniform(-0.5, 1.5), 0.0, 1.0]) for j in range(ds)] for _ in range(k)])
        return P
    # at the nodes
    js = [rng.randrange(len(S)) for _ in range(3)]
    i = rng.randrange(len(M))
    s = S[js]
    if exo == "empty":
        for how, f in [("s", lambda: dr(s)), ("is", lambda: dr(0, s)), ("ms", lambda: dr(np.zeros((3, 1)), s)), ("s", lambda: dr.eval_s(s)), ("ijs", lambda: dr.eval_ijs(0, 2, s)), ("is", lambda: dr.eval_is(1, s))]:
            if rng.random() < 0.6:
                ev(rec, how, f, 0, np.zeros((3, 1)), s, False, V[0][js])
        ev(rec, "s", lambda: dr(s[0]), 0, None, s[0], True, V[0][js[0]])
    elif exo == "chain":
        for how, f in [("is", lambda: dr(i, s)), ("is", lambda: dr(np.int32(i), s)), ("is", lambda: dr.eval_is(i, s)), ("ijs", lambda: dr.eval_ijs(0, i, s))]:
            if rng.random() < 0.7:
                ev(rec, how, f, i, None, s, False, V[i][js])
        ev(rec, "is", lambda: dr(i, s[0]), i, None, s[0], True, V[i][js[0]])
    else:
        m = M[[i] * 3]
        ev(rec, "is", lambda: dr(i, s), i, m, s, False, V[i][js])
        ev(rec, "is", lambda: dr.eval_is(i, s), i, m, s, False, V[i][js])
        ev(rec, "ms", lambda: dr(m, s), i, m, s, False, V[i][js])
        ev(rec, "ms", lambda: dr(M[i], s), i, m, s, False, V[i][js])
        ev(rec, "ms", lambda: dr(M[i], s[0]), i, m[:1], s[0], True, V[i][js[0]])
    # between and outside the nodes
    for k in (1, 3):
        s = pts(k)
        t = s if k > 1 else s[0]
        z = np.array([[round(x) for x in r] for r in s])       # at integer points
        if exo == "empty":
            ev(rec, "s", lambda: dr(z if k > 1 else z[0]), 0, None, z, k == 1)
            ev(rec, "s", lambda: dr(t), 0, None, s, k == 1)
            ev(rec, "ms", lambda: dr.eval_ms(np.zeros((k, 1)), s), 0, None, s, False)
        elif exo == "chain":
            i = rng.randrange(len(M))
            ev(rec, "is", lambda: dr(i, t), i, None, s, k == 1)
            ev(rec, "is", lambda: dr(i, z if k > 1 else z[0]), i, None, z, k == 1)
        else:
            lo, hi = M.min(axis=0), M.max(axis=0)
            m = np.array([[lo[j] + (hi[j] - lo[j]) * rng.choice([rng.random(), rng.random(), rng.uniform(-0.3, 1.3)]) for j in range(dm)] for _ in range(k)])
            ev(rec, "ms", lambda: dr(m if k > 1 else m[0], t), 0, m, s, k == 1)
            ev(rec, "ms", lambda: dr.eval_ms(m, s), 0, m, s, False)
            ev(rec, "ms", lambda: dr(m[0], s), 0, m[[0] * k], s, False)
            s2 = s[[0] * k]
            ev(rec, "ms", lambda: dr(m, s[0]), 0, m, s2, False)
            mi = np.array([[round(x) for x in r] for r in m])
            ev(rec, "ms", lambda: dr(mi, s), 0, mi, s, False)
            ev(rec, "ms", lambda: dr(mi, z), 0, mi, z, False)
            ev(rec, "is", lambda: dr(0, z), 0, M[[0] * k], z, False)
            if k == 1:
                ev(rec, "ms", lambda: dr(mi[0], s[0]), 0, mi, s, True)

            class DP:
                def inode(self, ii, jj):
                    return m[0]
            dr.dprocess = DP()
            ev(rec, "ijs", lambda: dr.eval_ijs(0, 1, s), 0, m[[0] * k], s, False)


def expansions(i):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        A = lambda *sh: npr.integers(-24, 24, sh) / 8
        for _ in range(6):
            S, X, o = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
            sb, xb = A(S), A(X)
            co = [A(*([X] + [S] * (k + 1))) for k in range(o)]
            oc, dr = rec.call(lambda: TaylorExpansion(sb, xb, *co) if rng.random() < 0.5 else TaylorExpansion([sb, xb] + co))
            rec.event("Rule", outcome=oc, kind="taylor", sbar=qa(sb), xbar=qa(xb), coefs=[qa(c) for c in co])
            s = A(3, S)
            ev(rec, "s", lambda: dr(s), 0, None, s, False)
            ev(rec, "s", lambda: dr(s[0]), 0, None, s[0], True)
            ev(rec, "ms", lambda: dr(A(3, 2), s), 0, None, s, False)
            ev(rec, "s", lambda: dr(sb), 0, None, sb, True, xb)
            ind = [rng.randrange(X) for _ in range(2)]
            oc, d2 = rec.call(lambda: dr[ind])
            rec.event("Rule", outcome=oc, kind="taylor", sbar=qa(sb), xbar=qa(xb[ind]), coefs=[qa(c[ind]) for c in co])
            ev(rec, "s", lambda: d2(s), 0, None, s, False)
        for _ in range(6):
            S, X, M = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2)
            mb, sb, xb, Cs = A(M), A(S), A(X), A(X, S)
            Cm = A(X, M) if rng.random() < 0.7 else None
            oc, dr = rec.call(lambda: BivariateTaylor(mb, sb, xb, Cm, Cs))
            rec.event("Rule", outcome=oc, kind="bitaylor", mbar=qa(mb), sbar=qa(sb), xbar=qa(xb), Cm=qa(Cm) if Cm is not None else [], Cs=qa(Cs))
            m, s = A(3, M), A(3, S)
            ev(rec, "ms", lambda: dr(m, s), 0, m, s, False)
            ev(rec, "ms", lambda: dr(m[0], s[0]), 0, m[:1], s[0], True)
            ev(rec, "ms", lambda: dr(m[0], s), 0, m[[0, 0, 0]], s, False)
            ev(rec, "ms", lambda: dr(m, s[0]), 0, m, s[[0, 0, 0]], False)
            ev(rec, "ms", lambda: dr.eval_ms(m, s), 0, m, s, False)
            ev(rec, "ms", lambda: dr(mb, sb), 0, mb[None], sb, True, xb)
            if Cm is None:
                ev(rec, "s", lambda: dr(s), 0, m, s, False)
                ev(rec, "s", lambda: dr(s[0]), 0, m[:1], s[0], True)
        X = A(rng.randint(1, 3))
        dr = ConstantDecisionRule(X)
        rec.event("Rule", outcome="ok", kind="constant", x0=qa(X))
        s = A(3, 2)
        for how, f, si in [("s", lambda: dr(s), False), ("s", lambda: dr(s[0]), True), ("is", lambda: dr(0, s), False), ("is", lambda: dr(1, s[0]), True),
                           ("ms", lambda: dr(A(3, 1), s), False), ("ms", lambda: dr(A(1), s[0]), True)]:
            ev(rec, how, f, 0, None, s[0] if si else s, si)
    return run


def custom(i):
    def run(rec):
        rng = rec.rng
        A = gen(rng, blocks=["arbitrage", "transition"])
        fn = os.path.abspath("c_%d_%d.yaml" % (i, os.getpid()))
        open(fn, "w").write(A["yaml"])
        model = yaml_import(fn, check=False)
        sym = A["symbols"]
        for _ in range(3):
            base = [var(v) for g in ("exogenous", "states") for v in sym[g]] + [par(p) for p in sym["parameters"]]
            used = {x for v in sym.values() for x in v} | {d["name"] for d in A["defs"]}
            names = [n for n in ("tmp", "inter", "y_1", "zeta") if n not in used]
            rng.shuffle(names)
            pre = []
            for nme in names[:rng.randint(0, 3)]:
                pre.append(dict(name=nme, expr=rand_expr(rng, base + [var(p["name"]) for p in pre] * 2, 2)))
            lv = base + [var(p["name"]) for p in pre] * 3
            ex = [rand_expr(rng, lv, 3) for _ in sym["controls"]]
            txt = {}

            def plain(e):
                return show(e, None, True).replace("[t]", "")
            items = [(p["name"], plain(p["expr"])) for p in pre] + list(zip(sym["controls"], map(plain, ex)))
            rng.shuffle(items)
            vals = dict(items)
            oc, dr = rec.call(lambda: CustomDR(vals, model))
            p = model.calibration["parameters"]
            M = dict(symbols=sym, defs=[p_ for p_ in pre], blocks={"transition": []}, bounds=[dict(lb=e, ub=e) for e in ex])
            rec.event("Rule", outcome=oc, kind="custom", M=M, p=qa(p), text=vals)
            m = np.array([[rng.randint(-8, 8) / 8 for _ in sym["exogenous"]] for _ in range(3)])
            s = np.array([[rng.randint(-8, 16) / 8 for _ in sym["states"]] for _ in range(3)])
            ev(rec, "ms", lambda: dr(m, s), 0, m, s, False)
            ev(rec, "ms", lambda: dr(m[0], s[0]), 0, m[:1], s[0], True)
            ev(rec, "ms", lambda: dr(m[1], s), 0, m[[1, 1, 1]], s, False)
            ev(rec, "ms", lambda: dr.eval_ms(m, s), 0, m, s, False)
        bad = {c: "0.1" for c in sym["controls"]}
        del bad[sym["controls"][-1]]
        o, _ = rec.call(lambda: CustomDR(bad, model))
        rec.event("Refuse", outcome=o, what="rule without one of the controls")
    return run


def refusals(rec):
    g = UniformCartesianGrid([0.0], [1.0], [3])
    z = np.zeros((1, 3, 1))
    for what, f in [("unknown interpolation", lambda: DecisionRule(EmptyGrid(), g, interp_method="spline", values=z)),
                    ("values on a smolyak grid without smolyak rule", lambda: DecisionRule(EmptyGrid(), SmolyakGrid([0.0, 0.0], [1.0, 1.0], 2), interp_method="cubic", values=np.zeros((1, 13, 1)))),
                    ("cubic splines on a non-uniform grid", lambda: DecisionRule(EmptyGrid(), NonUniformCartesianGrid([[0.0, 0.5, 2.0]]), interp_method="cubic", values=z)(np.array([[0.3]]))),
                    ("value of a chain as a continuous shock", lambda: DecisionRule(UnstructuredGrid([[0.0], [1.0]]), g, values=np.zeros((2, 3, 1)))(np.array([0.5]), np.array([0.5])))]:
        o, _ = rec.call(f)
        rec.event("Refuse", outcome=o, what=what)


COMBOS = [("empty", "linear", 1, 1), ("empty", "cubic", 1, 1), ("chain", "linear", 2, 1), ("chain", "cubic", 2, 2),
          ("grid", "linear", 1, 1), ("grid", "cubic", 1, 1), ("grid", "linear", 2, 1), ("grid", "cubic", 2, 1),
          ("empty", "linear", 2, 1), ("chain", "cubic", 1, 1), ("empty", "linear", 3, 1), ("empty", "cubic", 2, 1),
          ("chain", "linear", 1, 2), ("empty", "cubic", 3, 1), ("grid", "linear", 1, 2), ("grid", "cubic", 1, 2)]
SC = []
for r in range(8 if thorough else 2):
    for k in (range(16) if r % 2 == 0 else range(15, -1, -1)):
        c = COMBOS[k]
        SC.append(("rule/%s-%s-%d-%d/%d" % (c + (r,)), grid_rule(*c)))
# the same shard compiles the same interpolators
order = sorted(range(len(SC)), key=lambda j: 0)
by = {}
for nme, f in SC:
    by.setdefault(nme.rsplit("/", 1)[0], []).append((nme, f))
shards = [[] for _ in range(8)]
for j, key in enumerate(sorted(by)):
    shards[j % 8] += by[key]
SC = []
for j in range(max(map(len, shards))):
    for sh in shards:
        if j < len(sh):
            SC.append(sh[j])
SC += [("expansions/%d" % i, expansions(i)) for i in range(32 if thorough else 8)]
SC += [("custom/%d" % i, custom(i)) for i in range(64 if thorough else 16)] + [("refusals", refusals)]
sys.exit(run_scenarios(SC))
