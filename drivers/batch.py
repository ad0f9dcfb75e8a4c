"""L01: batched linear algebra, tensors, matrix equations."""
import sys, os, warnings
import numpy as np
from rec import run_scenarios, q, qa
from dolo.numeric import serial_operations as so, tensor, matrix_equations as me, misc
from dolo.numeric.optimize import newton as nw
from dolo.numeric.extern.qz import qzordered
from dolo.algos import invert as inv, bruteforce_lib as bf
import importlib
iti = importlib.import_module("dolo.algos.improved_time_iteration")

thorough = os.environ["VERIF_TIER"] == "thorough"
REP = 60 if thorough else 16


def arr(npr, *shape):
    a = npr.integers(-8, 9, shape) / 4
    if npr.random() < 0.3:
        a[npr.random(shape) < 0.5] = 0
    return a


def mats(npr, N, n):
    """invertible, often needing a permutation"""
    A = arr(npr, N, n, n)
    for k in range(N):
        while abs(np.linalg.det(A[k])) < 1e-2:
            A[k] = arr(npr, 1, n, n)[0]
        if n > 1 and npr.random() < 0.5:      # vanishing, or very small, first pivot
            B = A[k].copy(); B[0, 0] = 0 if npr.random() < 0.6 else 2.0 ** -npr.integers(50, 70)
            if abs(np.linalg.det(B)) > 1e-2:
                A[k] = B
    return A


def ints(npr, A):
    Z = npr.integers(-3, 4, A.shape)
    for k in range(len(Z)):
        while abs(np.linalg.det(Z[k])) < 0.5:
            Z[k] = npr.integers(-3, 4, Z[k].shape)
    return Z


def layout(npr, a):
    r = npr.random()
    return a if r < 0.6 else (np.asfortranarray(a) if r < 0.8 else np.repeat(a, 2, axis=0)[::2])


class Keep:
    def __init__(self, *a):
        self.a, self.b = a, [x.copy() for x in a]

    def __call__(self):
        return bool(all(np.array_equal(x, y) for x, y in zip(self.a, self.b)))


def solving(name, n):
    def run(rec):
        npr, rng = rec.nprng, rec.rng
        for _ in range(REP):
            N = rng.choice([1, 2, 6])
            A, B = mats(npr, N, n), arr(npr, N, n)
            for op, f in (("serial_operations.serial_solve", lambda a, b: so.serial_solve(a, b)), ("serial_operations.serial_solve(fast)", lambda a, b: so.serial_solve(a, b, diagnose=False)),
                          ("newton.serial_solve", lambda a, b: nw.serial_solve(a, b)), ("newton.serial_solve(fast)", lambda a, b: nw.serial_solve(a, b, diagnose=False)),
                          ("invert.serial_solve", lambda a, b: inv.serial_solve(a, b)), ("bruteforce.serial_solve", lambda a, b: bf.serial_solve(a, b))):
                a, b = (A.copy(), B.copy()) if "invert" in op or "brute" in op else (layout(npr, A), layout(npr, B))
                k = Keep(a, b)
                o, r = rec.call(lambda: f(a, b))
                rec.event("Solve", op=op, outcome=o, A=qa(A), B=qa(B[:, :, None]), X=qa(r[:, :, None]) if o == "ok" else [], unchanged=k())
                if "invert" in op or "brute" in op:
                    continue
                # integers are numbers, too (or refused)
                a, b = (A, B) if rng.random() < 0.5 else (ints(npr, A), B)
                b = npr.integers(-5, 6, (N, n))
                k = Keep(a, b)
                o, r = rec.call(lambda: f(a, b))
                rec.event("Solve", op=op + " of integers", outcome=o, A=qa(a), B=qa(b[:, :, None]), X=qa(r[:, :, None]) if o == "ok" else [], unchanged=k(), refusable="fast" in op)
            # in place by contract: the arguments are given as copies
            o, r = rec.call(lambda: inv.solve_gu(A.copy(), B.copy()))
            rec.event("Solve", op="solve_gu", outcome=o, A=qa(A), B=qa(B[:, :, None]), X=qa(np.asarray(r)[:, :, None]) if o == "ok" else [], unchanged=True)
            o, r = rec.call(lambda: inv.invert_gu(A.copy()))
            rec.event("Solve", op="invert_gu", outcome=o, A=qa(A), B=qa(np.array([np.eye(n)] * N)), X=qa(r) if o == "ok" else [], unchanged=True)
            for p in {1, 2, n, n + 2}:
                V = arr(npr, N, n, p)
                W = V.copy()
                o, r = rec.call(lambda: inv.solve_tensor(A.copy(), W))
                rec.event("Solve", op="solve_tensor", outcome=o, A=qa(A), B=qa(V), X=qa(W), unchanged=True)
            K = rng.choice([1, 2])
            D, J = np.array([mats(npr, N, n) for _ in range(K)]), arr(npr, K, N, n, K, n)
            k = Keep(D, J)
            op, f = rng.choice([("invert.mult_AB", inv.mult_AB), ("bruteforce.mult_AB", bf.mult_AB)])
            o, r = rec.call(lambda: f(D, J))
            rec.event("Solve", op=op, outcome=o, A=qa(D.reshape((K * N, n, n))), B=qa(J.reshape((K * N, n, K * n))), X=qa(r.reshape((K * N, n, K * n))) if o == "ok" else [], unchanged=k())
            # one singular point
            if N > 1 and n > 1:
                s = rng.randrange(N)
                A[s] = 0.0
                for op, f in (("serial_operations.serial_solve", so.serial_solve), ("newton.serial_solve", nw.serial_solve)):
                    pt = -1
                    try:
                        f(A, B); o = "ok"
                    except Exception as e:
                        o, pt = "raised", getattr(e, "i", -1)
                    rec.event("Singular", op=op, outcome=o, point=pt, k=s)
            # products
            p, m = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
            X, Y = arr(npr, N, n, m), arr(npr, N, m, p)
            k = Keep(X, Y)
            o, r = rec.call(lambda: so.serial_multiplication(X, Y))
            rec.event("Product", op="serial_multiplication", outcome=o, A=qa(X), B=qa(Y), X=qa(r) if o == "ok" else [], unchanged=k())
            o, r = rec.call(lambda: so.serial_multiplication(X[0], Y[0]))
            rec.event("Product", op="serial_multiplication of matrices", outcome=o, A=qa(X[:1]), B=qa(Y[:1]), X=[qa(r)] if o == "ok" else [], unchanged=k())
            X4, Y4 = np.asarray(X * 4, dtype=int), np.asarray(Y * 4, dtype=int)
            o, r = rec.call(lambda: so.serial_multiplication(X4, Y4))
            rec.event("Product", op="serial_multiplication of integers", outcome=o, A=qa(X4), B=qa(Y4), X=qa(r) if o == "ok" else [], unchanged=True)
            y = arr(npr, N, m)
            k = Keep(X, y)
            o, r = rec.call(lambda: iti.ssmul(X, y))
            rec.event("Product", op="ssmul", outcome=o, A=qa(X), B=qa(y[:, :, None]), X=qa(r[:, :, None]) if o == "ok" else [], unchanged=k())
            O = np.zeros((N, n))
            o, r = rec.call(lambda: iti.ssmul_inplace(X, y, O))
            rec.event("Product", op="ssmul_inplace", outcome=o, A=qa(X), B=qa(y[:, :, None]), X=qa(O[:, :, None]) if o == "ok" else [], unchanged=k())
    return run


def tensors(name, nd):
    def run(rec):
        npr, rng = rec.nprng, rec.rng
        for _ in range(REP):
            sh = [rng.choice([1, 2, 3]) for _ in range(nd)]
            T = arr(npr, *sh)
            k = rng.randint(1, nd)
            ds = [rng.choice([1, 2, 2, 3]) for _ in range(k)]
            Cs = [arr(npr, sh[nd - k + i], *[rng.choice([1, 2, 3]) for _ in range(ds[i] - 1)]) for i in range(k)]
            kp = Keep(T, *Cs)
            d = dict(T=qa(T), nd=nd, Cs=[qa(c) for c in Cs], ds=ds)
            o, r = rec.call(lambda: tensor.mdot(T, *Cs))
            rec.event("Compose", op="mdot", outcome=o, X=qa(np.asarray(r)) if o == "ok" else [], nx=int(np.ndim(r)) if o == "ok" else 0, unchanged=kp(), **d)
            if rng.random() < 0.5:
                T4, C4 = np.asarray(T * 4, dtype=int), [np.asarray(c * 4, dtype=int) for c in Cs]
                o, r = rec.call(lambda: tensor.mdot(T4, *C4))
                rec.event("Compose", op="mdot of integers", outcome=o, X=qa(np.asarray(r)) if o == "ok" else [], nx=int(np.ndim(r)) if o == "ok" else 0, unchanged=True, T=qa(T4), nd=nd, Cs=[qa(c) for c in C4], ds=ds)
            if all(z <= 2 for z in ds):
                o, r = rec.call(lambda: tensor.multidot_old(T, Cs))
                rec.event("Compose", op="multidot_old", outcome=o, X=qa(np.asarray(r)) if o == "ok" else [], nx=int(np.ndim(r)) if o == "ok" else 0, unchanged=kp(), **d)
            C = arr(npr, sh[-1], *[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))])
            kp = Keep(T, C)
            o, r = rec.call(lambda: tensor.sdot(T, C))
            rec.event("Compose", op="sdot", outcome=o, T=qa(T), nd=nd, Cs=[qa(C)], ds=[C.ndim], X=qa(np.asarray(r)) if o == "ok" else [], nx=int(np.ndim(r)) if o == "ok" else 0, unchanged=kp())
    return run


def equations(name, n, v, k):
    def run(rec):
        npr, rng = rec.nprng, rec.rng
        for _ in range(REP // 2):
            C = arr(npr, v, v) / 4
            A, B = mats(npr, 1, n)[0] + 4 * np.eye(n), arr(npr, n, n) / 4
            D = arr(npr, n, *([v] * k))
            kp = Keep(A, B, C, D)
            ops = [("solve_sylvester", lambda: me.solve_sylvester(A, B, C, D))]
            if k == 1:
                ops.append(("solve_sylvester_vectorized", lambda: me.solve_sylvester_vectorized((A, np.eye(v)), (B, C), D)))
            for op, f in ops:
                o, r = rec.call(f)
                rec.event("Sylvester", op=op, outcome=o, A=qa(A), B=qa(B), C=qa(C), D=qa(D), X=qa(r) if o == "ok" else [], k=k, unchanged=kp(),
                          scale=q(float((1 + abs(r).max()) * (1 + abs(A).max() + abs(B).max() * (1 + abs(C).sum()) ** k))) if o == "ok" else "1")
            # F X^2 + G X + H = 0 with the solution P, the other roots being those of Q
            P, Q = arr(npr, n, n) / (4 * n), arr(npr, n, n) / (4 * n) + np.diag(npr.choice([-1, 1], n) * npr.integers(6, 10, n) / 2)
            F = mats(npr, 1, n)[0]
            G, H = -F @ (P + Q), F @ Q @ P
            kp = Keep(F, G, H)
            o, r = rec.call(lambda: me.second_order_solver(F, G, H))
            rec.event("Quadratic", op="second_order_solver", outcome=o, F=qa(F), G=qa(G), H=qa(H), P=qa(P), X=qa(r[1]) if o == "ok" else [], unchanged=kp(),
                      scale=q(float((1 + abs(F).max() + abs(G).max()) * n * n * 4)))
            m = n + v
            A, B = arr(npr, m, m), arr(npr, m, m)
            if rng.random() < 0.5:
                B = mats(npr, 1, m)[0]
            crit = rng.choice([1.0, 0.5, 2.0, 1 - 1e-8])
            kp = Keep(A, B)
            o, r = rec.call(lambda: qzordered(A, B, crit))
            ev = np.array(r[4]) if o == "ok" else np.zeros(0)
            if o == "ok" and (not np.all(np.isfinite(ev)) or abs(ev - crit).min() < 1e-4):
                continue
            rec.event("Schur", op="qzordered", outcome=o, A=qa(A), B=qa(B), crit=q(crit), unchanged=kp(), **({k2: qa(z) for k2, z in zip(("S", "T", "U", "V", "eig"), r)} if o == "ok" else {}))
    return run


def derivatives(name, a, b):
    def run(rec):
        npr, rng = rec.nprng, rec.rng
        for _ in range(REP):
            N = rng.choice([1, 2, 5])
            Q, L, x = arr(npr, a, b), arr(npr, a, b), arr(npr, N, b)
            f = lambda z: np.einsum("ab,bn->an", Q, z ** 2) + np.einsum("ab,bn->an", L, z)
            z = np.ascontiguousarray(x.T)
            kp = Keep(z)
            kw = rng.choice([{}, dict(dv=1e-6)])
            o, r = rec.call(lambda: so.numdiff1(f, z, **kw))
            rec.event("Derivative", op="numdiff1", outcome=o, Q=qa(Q), L=qa(L), x=qa(x), J=qa(r) if o == "ok" else [], unchanged=kp())
            # a single point; several observations of the same function
            g = lambda z: np.repeat((Q @ z ** 2 + L @ z)[:, None], N, axis=1)
            y = x[0].copy()
            kp = Keep(y)
            o, r = rec.call(lambda: so.numdiff2(g, y, **kw))
            rec.event("Derivative", op="numdiff2", outcome=o, Q=qa(Q), L=qa(L), x=qa(np.array([y] * N)), J=qa(r) if o == "ok" else [], unchanged=kp())
            o, r = rec.call(lambda: misc.MyJacobian(lambda z: Q @ z ** 2 + L @ z)(y))
            rec.event("Derivative", op="MyJacobian", outcome=o, Q=qa(Q), L=qa(L), x=qa(y[None, :]), J=qa(r[:, :, None]) if o == "ok" else [], unchanged=kp())
    return run


SC = []
for r in range(3 if thorough else 1):
    for n in (1, 2, 3, 4, 5):
        SC.append(("solve/%d.%d" % (n, r), solving("", n)))
    for nd in (1, 2, 3, 4):
        SC.append(("tensor/%d.%d" % (nd, r), tensors("", nd)))
    for n, v, k in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (1, 2, 3), (3, 2, 2), (2, 2, 3), (3, 3, 1)):
        SC.append(("equations/%d.%d.%d.%d" % (n, v, k, r), equations("", n, v, k)))
    for a, b in ((1, 1), (2, 3), (3, 2)):
        SC.append(("derivatives/%d.%d.%d" % (a, b, r), derivatives("", a, b)))
sys.exit(run_scenarios(SC))
