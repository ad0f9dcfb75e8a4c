"""N01: Newton and complementarity solvers."""
import sys, os, json, warnings
from fractions import Fraction as F
import numpy as np
import scipy.sparse as sp
from rec import run_scenarios, q, qa
from dolo.numeric.optimize.newton import newton, serial_newton, SerialDifferentiableFunction
from dolo.numeric.optimize.ncpsolve import ncpsolve
from dolo.numeric.extern.lmmcp import lmmcp

thorough = os.environ["VERIF_TIER"] == "thorough"


class Stack:
    def __init__(self, P):
        self.A, self.B, self.C, self.D = (np.array([p[k] for p in P], dtype=float) for k in "ABCD")
        self.N, self.n = self.B.shape

    def val(self, x):
        return np.einsum("kij,kj->ki", self.A, x) + self.B + self.C * x ** 3 + self.D * x ** 2

    def jac(self, x):
        J = self.A.copy()
        for i in range(self.n):
            J[:, i, i] += 3 * self.C[:, i] * x[:, i] ** 2 + 2 * self.D[:, i] * x[:, i]
        return J

    def block(self, J):
        M = np.zeros((self.N * self.n,) * 2)
        for k in range(self.N):
            M[k * self.n:(k + 1) * self.n, k * self.n:(k + 1) * self.n] = J[k]
        return M

    def fun(self, jt):
        if jt == "serial":
            return lambda x: [self.val(x), self.jac(x)]
        un = lambda x: x.reshape((self.N, self.n))
        if jt == "full":
            return lambda x: [self.val(un(x)).ravel(), self.block(self.jac(un(x)))]
        return lambda x: [self.val(un(x)).ravel(), sp.csc_matrix(self.block(self.jac(un(x))))]


def quiet(rec, f):
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        o, r = rec.call(f)
    return o, r, not any("onverge" in str(w.message) for w in W)


def fr(rng, lo, hi, d=8):
    return rng.randint(lo * d, hi * d) / d


def problem(rng, n, kind):
    """monotone: one solution; free: anything; hopeless: no solution"""
    A = [[fr(rng, -1, 1) for _ in range(n)] for _ in range(n)]
    B = [fr(rng, -3, 3) for _ in range(n)]
    C, D = [0.0] * n, [0.0] * n
    if kind == "monotone":
        for i in range(n):
            A[i][i] = sum(abs(A[i][j]) for j in range(n) if j != i) + fr(rng, 1, 2)
            # diagonally dominant in columns too
            A[i][i] = max(A[i][i], sum(abs(A[j][i]) for j in range(n) if j != i) + 0.5)
            C[i] = rng.choice([0, 0, 0.25, 1])
    elif kind == "free":
        C = [fr(rng, -1, 1) for _ in range(n)]
        D = [fr(rng, -1, 1) for _ in range(n)]
    else:
        i = rng.randrange(n)
        A[i] = [0.0] * n
        D[i], B[i], C[i] = 1.0, rng.choice([0.25, 1.0, 0.0625]), 0.0
    return dict(A=A, B=B, C=C, D=D)


def bounds(rng, n):
    lb = [rng.choice([-np.inf, fr(rng, -2, 0), fr(rng, -2, 1)]) for _ in range(n)]
    ub = [rng.choice([np.inf, l + fr(rng, 0, 2) if np.isfinite(l) else fr(rng, -1, 2)]) for l in lb]
    return lb, ub


def show(P, **kw):
    return dict(P=[{k: qa(v) for k, v in p.items()} for p in P], **kw)


def stacks(name, n, kind, bounded):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(60 if thorough else 20):
            N = rng.choice([1, 2, 5])
            k2 = kind if kind != "mixed" else rng.choice(["monotone", "free", "hopeless"])
            P = [problem(rng, n, k2 if k2 != "hopeless" or i == 0 else "monotone") for i in range(N)]
            S = Stack(P)
            tol = rng.choice([1e-6, 1e-8, 1e-10, 1e-3])
            maxit = rng.choice([1, 2, 3, 5, 10, 100, 100])
            posed = k2 == "monotone" and maxit == 100
            if bounded:
                bs = [bounds(rng, n) for _ in range(N)]
                lb, ub = np.array([b[0] for b in bs]), np.array([b[1] for b in bs])
            x0 = npr.integers(-8, 9, (N, n)) / 4
            how0 = rng.choice(["anywhere", "lower", "upper", "kink"]) if bounded else "anywhere"
            if how0 == "lower":
                x0 = np.where(np.isfinite(lb), lb, x0)
            elif how0 == "upper":
                x0 = np.where(np.isfinite(ub), ub, x0)
            elif how0 == "kink":        # some problems start at a bound where the function vanishes
                x0 = np.where(np.isfinite(lb), lb, x0)
                v = S.val(x0)
                for k in range(N):
                    if rng.random() < 0.7:
                        for i in range(n):
                            if rng.random() < 0.7:
                                P[k]["B"][i] = float(P[k]["B"][i] - v[k, i])
                S = Stack(P)
            runs = ["serial", rng.choice(["full", "sparse"])] if rng.random() < 0.7 else [rng.choice(["serial", "full", "sparse"])]
            for z, jt in enumerate(runs):
                un = (lambda x: x) if jt == "serial" else (lambda x: np.asarray(x).reshape((N, n)))
                X0 = x0.copy() if jt == "serial" else x0.copy().ravel()
                f = S.fun(jt)
                if bounded:
                    a, b = (lb.copy(), ub.copy()) if jt == "serial" else (lb.ravel().copy(), ub.ravel().copy())
                    if rng.random() < 0.5:
                        a, b = np.where(np.isinf(a), -1e20, a), np.where(np.isinf(b), 1e20, b)
                    a0, b0 = a.copy(), b.copy()
                    o, r, cl = quiet(rec, lambda: ncpsolve(f, a, b, X0, tol=tol, maxit=maxit, jactype=jt))
                    unch = np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(X0.ravel(), x0.ravel())
                else:
                    F_ = rng.choice([newton, serial_newton])
                    o, r, cl = quiet(rec, lambda: F_(f, X0, tol=tol, maxit=maxit, jactype=jt))
                    unch = np.array_equal(X0.ravel(), x0.ravel())
                d = dict(outcome=o, how=[k2, jt, how0, "bounds" if bounded else "none"], tol=q(tol), maxit=maxit, claims=cl, posed=posed and how0 != "kink", unchanged=bool(unch), factor="10",
                         lb=qa(lb) if bounded else [], ub=qa(ub) if bounded else [], always=True, nit=-1)
                if o == "ok":
                    d.update(x=qa(un(np.asarray(r[0]))), nit=int(r[1]))
                rec.event("Run", **show(P, **d))
                first = (o, cl) if z == 0 else first
                if z == 1 and k2 == "monotone" and o == "ok" and first[0] == "ok" and tol <= 1e-6:
                    pass
            # one at a time
            if k2 == "monotone" and o == "ok" and tol <= 1e-6:
                xs, cls = [], True
                for k in range(N):
                    S1 = Stack([P[k]])
                    if bounded:
                        o1, r1, c1 = quiet(rec, lambda: ncpsolve(S1.fun("serial"), lb[k:k + 1], ub[k:k + 1], x0[k:k + 1], tol=tol, maxit=maxit))
                    else:
                        o1, r1, c1 = quiet(rec, lambda: newton(S1.fun("serial"), x0[k:k + 1], tol=tol, maxit=maxit))
                    cls = cls and c1 and o1 == "ok"
                    if o1 == "ok":
                        xs.append(r1[0][0])
                rec.event("Same", how=["one at a time"], claims=bool(cls), x=qa(np.array(xs)))
    return run


def dense(name, n, kind):
    """lmmcp"""
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(40 if thorough else 12):
            k2 = kind if kind != "mixed" else rng.choice(["monotone", "free", "hopeless"])
            P = [problem(rng, n, k2)]
            S = Stack(P)
            lb, ub = map(np.array, bounds(rng, n))
            x0 = npr.integers(-8, 9, n) / 4
            a, b = lb.copy(), ub.copy()
            if rng.random() < 0.5:
                a, b = np.where(np.isinf(a), -1e20, a), np.where(np.isinf(b), 1e20, b)
            a0, b0, X0 = a.copy(), b.copy(), x0.copy()
            nan = rng.random() < 0.1 and k2 == "hopeless"
            f = lambda x: S.val(x[None, :])[0] * (np.nan if nan else 1)
            opts = rng.choice([{}, {}, dict(preprocess=False), dict(presteps=2)])
            o, r, cl = quiet(rec, lambda: lmmcp(f, lambda x: S.jac(x[None, :])[0], X0, a, b, verbose=rng.random() < 0.2, options=opts))
            d = dict(outcome=o, how=[k2, "lmmcp", str(opts), "nan" if nan else ""], tol="1/1000000", factor="10", maxit=0, nit=-1, claims=True, always=False, posed=k2 == "monotone",
                     lb=[qa(lb)], ub=[qa(ub)], unchanged=bool(np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(X0, x0)))
            if o == "ok":
                d.update(x=[qa(np.asarray(r))])
            rec.event("Run", **show(P, **d))
    return run


def differences(name, n):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(10):
            N = rng.choice([1, 3, 6])
            P = [problem(rng, n, rng.choice(["monotone", "free"])) for _ in range(N)]
            S = Stack(P)
            x = npr.integers(-8, 9, (N, n)) / 8
            x0 = x.copy()
            o, r = rec.call(lambda: SerialDifferentiableFunction(S.val, **rng.choice([{}, dict(epsilon=1e-7)]))(x))
            d = dict(outcome=o, x=qa(x0), unchanged=bool(np.array_equal(x, x0)))
            if o == "ok":
                d.update(v=qa(r[0]), J=qa(r[1]))
            rec.event("Diff", **show(P, **d))
    return run


def spec_problems(rec, k, n):
    B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "problems.json")))
    B = B[k::n]
    if not thorough:
        B = rec.rng.sample(B, min(len(B), 40))
    f = lambda v: np.array([{"inf": np.inf, "-inf": -np.inf}.get(z, None) if "inf" in z else float(F(z)) for z in v], dtype=float)
    P = [dict(A=[f(r) for r in b["A"]], B=f(b["B"]), C=[0, 0], D=[0, 0]) for b in B]
    # all at once
    S = Stack(P)
    lb, ub = np.array([f(b["lb"]) for b in B]), np.array([f(b["ub"]) for b in B])
    for jt in ("serial", "sparse", "full"):
        sh = (lambda z: z) if jt == "serial" else (lambda z: z.ravel())
        o, r, cl = quiet(rec, lambda: ncpsolve(S.fun(jt), sh(lb), sh(ub), sh(np.full(lb.shape, 0.125)), tol=1e-9, maxit=200, jactype=jt))
        for i, b in enumerate(B):
            d = dict(outcome=o, how=jt, claims=cl, b=b)
            if o == "ok":
                d["x"] = qa(np.asarray(r[0]).reshape(lb.shape)[i])
            rec.event("Problem", **d)
    for i, b in enumerate(B):
        S1 = Stack([P[i]])
        o, r, cl = quiet(rec, lambda: lmmcp(lambda x: S1.val(x[None, :])[0], lambda x: S1.jac(x[None, :])[0], np.array([0.125, 0.125]), lb[i], ub[i], verbose=False))
        d = dict(outcome=o, how="lmmcp", claims=True, b=b)
        if o == "ok":
            d["x"] = qa(np.asarray(r))
        rec.event("Problem", **d)


SC = []
for r in range(3 if thorough else 1):
    for n in (1, 2, 3, 5):
        for kind in ("monotone", "mixed"):
            for bd in (False, True):
                s = "stack/%s/%d/%s.%d" % (kind, n, "bounds" if bd else "free", r)
                SC.append((s, stacks(s, n, kind, bd)))
            s = "lmmcp/%s/%d.%d" % (kind, n, r)
            SC.append((s, dense(s, n, kind)))
    for n in (1, 2, 4):
        s = "differences/%d.%d" % (n, r)
        SC.append((s, differences(s, n)))
for j in range(8):
    SC.append(("problems/%d" % j, lambda rec, j=j: spec_problems(rec, j, 8)))
sys.exit(run_scenarios(SC))
